From 78986ceff104abcbe0e311773b8c3b7708636caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:40 +0000
Subject: [PATCH 01/24] fix: SongPositionPointer byte messages are three bytes
 long

---
 midi2/src/system_common/song_position_pointer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi2/src/system_common/song_position_pointer.rs b/midi2/src/system_common/song_position_pointer.rs
index ea23dd6..1753655 100644
--- a/midi2/src/system_common/song_position_pointer.rs
+++ b/midi2/src/system_common/song_position_pointer.rs
@@ -12,7 +12,7 @@ pub const STATUS: u8 = 0xF2;
     Via(system_common::SystemCommon),
     FixedSize,
     MinSizeUmp(1),
-    MinSizeBytes(2)
+    MinSizeBytes(3)
 )]
 struct SongPositionPointer {
     #[property(common_properties::UmpMessageTypeProperty<UMP_MESSAGE_TYPE>)]
-- 
2.43.0


From a83940fdcbaf3ca16da9645d549e442cb3b21603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:40 +0000
Subject: [PATCH 02/24] fix: TuneRequest is one byte and TimeCode two bytes
 long as byte messages

---
 midi2/src/system_common.rs           | 2 +-
 midi2/src/system_common/time_code.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/midi2/src/system_common.rs b/midi2/src/system_common.rs
index f3122ac..500ce5e 100644
--- a/midi2/src/system_common.rs
+++ b/midi2/src/system_common.rs
@@ -20,7 +20,7 @@ mod tune_request {
         Via(system_common::SystemCommon),
         FixedSize,
         MinSizeUmp(1),
-        MinSizeBytes(2)
+        MinSizeBytes(1)
     )]
     struct TuneRequest {
         #[property(common_properties::UmpMessageTypeProperty<UMP_MESSAGE_TYPE>)]
diff --git a/midi2/src/system_common/time_code.rs b/midi2/src/system_common/time_code.rs
index 97ba7cd..74ece8b 100644
--- a/midi2/src/system_common/time_code.rs
+++ b/midi2/src/system_common/time_code.rs
@@ -12,7 +12,7 @@ pub const STATUS: u8 = 0xF1;
     Via(system_common::SystemCommon),
     FixedSize,
     MinSizeUmp(1),
-    MinSizeBytes(3)
+    MinSizeBytes(2)
 )]
 struct TimeCode {
     #[property(common_properties::UmpMessageTypeProperty<UMP_MESSAGE_TYPE>)]
-- 
2.43.0


From 62dfe4edff1c2d64c5f103eb0f35afd004e82c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:26 +0000
Subject: [PATCH 03/24] fix: a truncated last packet does not complete a multi
 packet message

---
 midi2/src/detail/helpers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi2/src/detail/helpers.rs b/midi2/src/detail/helpers.rs
index 148bfb1..ce58bfd 100644
--- a/midi2/src/detail/helpers.rs
+++ b/midi2/src/detail/helpers.rs
@@ -57,7 +57,7 @@ pub fn validate_sysex_group_statuses<
     use crate::{detail::BitOps, error::InvalidData};
 
     let mut iter = buffer
-        .chunks(stride)
+        .chunks_exact(stride)
         .take_while(|chunk| chunk[0].nibble(0) == ump_type)
         .peekable();
 
-- 
2.43.0


From af7ba6fea373e48c3fdf7ee14df42de711609608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:26 +0000
Subject: [PATCH 04/24] fix: FlexData recognises accompanying performer name,
 recording date and recording location

---
 midi2/src/flex_data.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/midi2/src/flex_data.rs b/midi2/src/flex_data.rs
index 13ad909..7be72ef 100755
--- a/midi2/src/flex_data.rs
+++ b/midi2/src/flex_data.rs
@@ -874,11 +874,11 @@ impl<'a> TryFrom<&'a [u32]> for FlexData<&'a [u32]> {
             0x01_09 => PrimaryPerformerName(
                 primary_performer_name::PrimaryPerformerName::try_from(value)?,
             ),
-            0x01_10 => AccompanyingPerformerName(
+            0x01_0A => AccompanyingPerformerName(
                 accompanying_performer_name::AccompanyingPerformerName::try_from(value)?,
             ),
-            0x01_11 => RecordingDate(recording_date::RecordingDate::try_from(value)?),
-            0x01_12 => RecordingLocation(recording_location::RecordingLocation::try_from(value)?),
+            0x01_0B => RecordingDate(recording_date::RecordingDate::try_from(value)?),
+            0x01_0C => RecordingLocation(recording_location::RecordingLocation::try_from(value)?),
             0x02_00 => UnknownPerformanceText(
                 unknown_performance_text::UnknownPerformanceText::try_from(value)?,
             ),
-- 
2.43.0


From 8a9ccf245722ef01b4ba64694cda137c5a479901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:33 +0000
Subject: [PATCH 05/24] fix: write chorus send level as controller 93 and
 effect 5 depth as controller 95

---
 midi2/src/channel_voice2/controller.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/midi2/src/channel_voice2/controller.rs b/midi2/src/channel_voice2/controller.rs
index bf385c5..5073580 100644
--- a/midi2/src/channel_voice2/controller.rs
+++ b/midi2/src/channel_voice2/controller.rs
@@ -118,8 +118,9 @@ pub fn to_index_and_data(c: Controller) -> (u8, u32) {
         Controller::ReverbSendLevel(data) => (91, data),
         Controller::EffectDepth { index: 2, data } => (92, data),
         Controller::EffectDepth { index: 3, data } => (93, data),
-        Controller::ChorusSendLevel(data) => (91, data),
+        Controller::ChorusSendLevel(data) => (93, data),
         Controller::EffectDepth { index: 4, data } => (94, data),
+        Controller::EffectDepth { index: 5, data } => (95, data),
         _ => unreachable!(),
     }
 }
-- 
2.43.0


From 5f6213ce5b96f57f556e958c9edc5346ef043f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:46 +0000
Subject: [PATCH 06/24] fix: setting a key signature of zero flats does not
 panic

---
 midi2/src/flex_data/set_key_signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi2/src/flex_data/set_key_signature.rs b/midi2/src/flex_data/set_key_signature.rs
index e45f479..9845121 100644
--- a/midi2/src/flex_data/set_key_signature.rs
+++ b/midi2/src/flex_data/set_key_signature.rs
@@ -76,7 +76,7 @@ impl<B: crate::buffer::Ump + crate::buffer::BufferMut> crate::detail::property::
             0,
             match v {
                 SharpsFlats::Sharps(v) => u4::from(v),
-                SharpsFlats::Flats(v) => u4::new((!u8::from(v) & 0b0000_1111) + 1),
+                SharpsFlats::Flats(v) => u4::new(u8::from(v).wrapping_neg() & 0b0000_1111),
                 SharpsFlats::NonStandard => u4::new(0x8),
             },
         );
-- 
2.43.0


From 058313b9ce8a4f9bb748a93b0bac3e7c2e7fc95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:34 +0000
Subject: [PATCH 07/24] fix: UMP stream messages are not confused by what is
 stored after them

---
 midi2/src/ump_stream.rs                     | 38 +++++++++++++++++----
 midi2/src/ump_stream/function_block_name.rs |  6 ++--
 2 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/midi2/src/ump_stream.rs b/midi2/src/ump_stream.rs
index 8123312..2fd8b4c 100644
--- a/midi2/src/ump_stream.rs
+++ b/midi2/src/ump_stream.rs
@@ -123,10 +123,7 @@ impl<const STATUS: u16, B: Ump> property::Property<B> for StatusProperty<STATUS>
 impl<'a, const STATUS: u16, B: Ump> property::ReadProperty<'a, B> for StatusProperty<STATUS> {
     fn read(_buffer: &'a B) -> Self::Type {}
     fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
-        if buffer
-            .buffer()
-            .chunks_exact(4)
-            .all(|packet| status_from_buffer(packet) == STATUS)
+        if message_packets(buffer.buffer()).all(|packet| status_from_buffer(packet) == STATUS)
         {
             Ok(())
         } else {
@@ -140,7 +137,7 @@ impl<const STATUS: u16, B: Ump + BufferMut> property::WriteProperty<B> for Statu
         Ok(())
     }
     fn write(buffer: &mut B, _v: Self::Type) {
-        for packet in buffer.buffer_mut().chunks_exact_mut(4) {
+        for packet in message_packets_mut(buffer.buffer_mut()) {
             packet[0] &= !0x03FF_0000;
             packet[0] |= (STATUS as u32) << 16;
         }
@@ -176,7 +173,10 @@ impl<'a, B: Ump> property::ReadProperty<'a, B> for ConsistentFormatsProperty {
 impl<B: Ump + BufferMut> property::WriteProperty<B> for ConsistentFormatsProperty {
     fn default() -> Self::Type {}
     fn write(buffer: &mut B, _v: Self::Type) {
-        set_format_fields(buffer.buffer_mut())
+        use crate::detail::BitOps;
+        // only called at initialization time.
+        // the message is a single packet
+        buffer.buffer_mut()[0].set_crumb(2, crate::ux::u2::new(COMPLETE_FORMAT));
     }
     fn validate(_v: &Self::Type) -> Result<(), crate::error::InvalidData> {
         Ok(())
@@ -430,6 +430,32 @@ fn message_size<B: crate::buffer::Ump>(buffer: &B) -> usize {
         + 4
 }
 
+// The packets of the message at the front of the buffer
+fn message_packets(buffer: &[u32]) -> impl Iterator<Item = &[u32]> {
+    let mut finished = false;
+    buffer.chunks(4).take_while(move |packet| {
+        let in_message = !finished;
+        finished = is_last_packet(packet);
+        in_message
+    })
+}
+
+// The packets of the message at the front of the buffer
+fn message_packets_mut(buffer: &mut [u32]) -> impl Iterator<Item = &mut [u32]> {
+    let mut finished = false;
+    buffer.chunks_mut(4).take_while(move |packet| {
+        let in_message = !finished;
+        finished = is_last_packet(packet);
+        in_message
+    })
+}
+
+fn is_last_packet(packet: &[u32]) -> bool {
+    use crate::detail::BitOps;
+    let format: u8 = packet[0].crumb(2).into();
+    format == COMPLETE_FORMAT || format == END_FORMAT
+}
+
 fn status_from_buffer(buffer: &[u32]) -> u16 {
     ((buffer[0] & 0x03FF_0000) >> 16) as u16
 }
diff --git a/midi2/src/ump_stream/function_block_name.rs b/midi2/src/ump_stream/function_block_name.rs
index 04f0d4b..ebfaf20 100644
--- a/midi2/src/ump_stream/function_block_name.rs
+++ b/midi2/src/ump_stream/function_block_name.rs
@@ -47,9 +47,7 @@ impl<'a, B: Ump> property::ReadProperty<'a, B> for FunctionBlockProperty {
         use crate::detail::BitOps;
 
         let function_block = buffer.buffer()[0].octet(2);
-        if !buffer
-            .buffer()
-            .chunks_exact(4)
+        if !ump_stream::message_packets(buffer.buffer())
             .all(|packet| packet[0].octet(2) == function_block)
         {
             Err(crate::error::InvalidData(
@@ -74,7 +72,7 @@ impl<B: Ump + BufferMut> property::WriteProperty<B> for FunctionBlockProperty {
     }
     fn write(buffer: &mut B, v: Self::Type) {
         use crate::detail::BitOps;
-        for packet in buffer.buffer_mut().chunks_exact_mut(4) {
+        for packet in ump_stream::message_packets_mut(buffer.buffer_mut()) {
             packet[0].set_octet(2, v);
         }
     }
-- 
2.43.0


From fda8190f334a0ac179c376593e3e143fb723ec33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:07 +0000
Subject: [PATCH 08/24] fix: fixed size UMP stream messages are single complete
 packets

---
 midi2/src/ump_stream.rs                       | 30 +++++++++++++++++++
 midi2/src/ump_stream/device_identity.rs       |  4 +--
 midi2/src/ump_stream/end_of_clip.rs           |  4 +--
 midi2/src/ump_stream/endpoint_discovery.rs    |  4 +--
 midi2/src/ump_stream/endpoint_info.rs         |  4 +--
 .../ump_stream/function_block_discovery.rs    |  4 +--
 midi2/src/ump_stream/function_block_info.rs   |  4 +--
 midi2/src/ump_stream/start_of_clip.rs         |  4 +--
 .../stream_configuration_notification.rs      |  4 +--
 .../stream_configuration_request.rs           |  4 +--
 10 files changed, 48 insertions(+), 18 deletions(-)

diff --git a/midi2/src/ump_stream.rs b/midi2/src/ump_stream.rs
index 2fd8b4c..5a4a7d5 100644
--- a/midi2/src/ump_stream.rs
+++ b/midi2/src/ump_stream.rs
@@ -183,6 +183,36 @@ impl<B: Ump + BufferMut> property::WriteProperty<B> for ConsistentFormatsPropert
     }
 }
 
+// Fixed size messages are always a single complete packet
+struct CompleteFormatProperty;
+
+impl<B: Ump> property::Property<B> for CompleteFormatProperty {
+    type Type = ();
+}
+
+impl<'a, B: Ump> property::ReadProperty<'a, B> for CompleteFormatProperty {
+    fn read(_buffer: &'a B) -> Self::Type {}
+    fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
+        use crate::detail::BitOps;
+        if u8::from(buffer.buffer()[0].crumb(2)) == COMPLETE_FORMAT {
+            Ok(())
+        } else {
+            Err(crate::error::InvalidData("Incorrect message format"))
+        }
+    }
+}
+
+impl<B: Ump + BufferMut> property::WriteProperty<B> for CompleteFormatProperty {
+    fn default() -> Self::Type {}
+    fn write(buffer: &mut B, _v: Self::Type) {
+        use crate::detail::BitOps;
+        buffer.buffer_mut()[0].set_crumb(2, crate::ux::u2::new(COMPLETE_FORMAT));
+    }
+    fn validate(_v: &Self::Type) -> Result<(), crate::error::InvalidData> {
+        Ok(())
+    }
+}
+
 struct TextWriteStrProperty<'a, const OFFSET: usize>(core::marker::PhantomData<&'a u8>);
 
 impl<'a, const OFFSET: usize, B: Ump> property::Property<B> for TextWriteStrProperty<'a, OFFSET> {
diff --git a/midi2/src/ump_stream/device_identity.rs b/midi2/src/ump_stream/device_identity.rs
index 3718afd..a48f915 100644
--- a/midi2/src/ump_stream/device_identity.rs
+++ b/midi2/src/ump_stream/device_identity.rs
@@ -13,8 +13,8 @@ struct DeviceIdentity {
     ump_type: (),
     #[property(ump_stream::StatusProperty<STATUS>)]
     status: (),
-    #[property(ump_stream::ConsistentFormatsProperty)]
-    consistent_formats: (),
+    #[property(ump_stream::CompleteFormatProperty)]
+    complete_format: (),
     #[property(common_properties::UmpSchemaProperty<[u7; 3], schema::Ump<0x0, 0x007F_7F7F, 0x0, 0x0>>)]
     device_manufacturer: [u7; 3],
     #[property(common_properties::UmpSchemaProperty<u14, schema::Ump<0x0, 0x0, 0x7F7F_0000, 0x0>>)]
diff --git a/midi2/src/ump_stream/end_of_clip.rs b/midi2/src/ump_stream/end_of_clip.rs
index 91e151d..c593801 100644
--- a/midi2/src/ump_stream/end_of_clip.rs
+++ b/midi2/src/ump_stream/end_of_clip.rs
@@ -8,8 +8,8 @@ struct EndOfClip {
     ump_type: (),
     #[property(ump_stream::StatusProperty<STATUS>)]
     status: (),
-    #[property(ump_stream::ConsistentFormatsProperty)]
-    consistent_formats: (),
+    #[property(ump_stream::CompleteFormatProperty)]
+    complete_format: (),
 }
 
 #[cfg(test)]
diff --git a/midi2/src/ump_stream/endpoint_discovery.rs b/midi2/src/ump_stream/endpoint_discovery.rs
index 2a2e782..c54562d 100644
--- a/midi2/src/ump_stream/endpoint_discovery.rs
+++ b/midi2/src/ump_stream/endpoint_discovery.rs
@@ -12,8 +12,8 @@ struct EndpointDiscovery {
     ump_type: (),
     #[property(ump_stream::StatusProperty<STATUS>)]
     status: (),
-    #[property(ump_stream::ConsistentFormatsProperty)]
-    consistent_formats: (),
+    #[property(ump_stream::CompleteFormatProperty)]
+    complete_format: (),
     #[property(common_properties::UmpSchemaProperty<u8, schema::Ump<0x0000_FF00, 0x0, 0x0, 0x0>>)]
     ump_version_major: u8,
     #[property(common_properties::UmpSchemaProperty<u8, schema::Ump<0x0000_00FF, 0x0, 0x0, 0x0>>)]
diff --git a/midi2/src/ump_stream/endpoint_info.rs b/midi2/src/ump_stream/endpoint_info.rs
index 0d1dc37..18df88c 100644
--- a/midi2/src/ump_stream/endpoint_info.rs
+++ b/midi2/src/ump_stream/endpoint_info.rs
@@ -13,8 +13,8 @@ struct EndpointInfo {
     ump_type: (),
     #[property(ump_stream::StatusProperty<STATUS>)]
     status: (),
-    #[property(ump_stream::ConsistentFormatsProperty)]
-    consistent_formats: (),
+    #[property(ump_stream::CompleteFormatProperty)]
+    complete_format: (),
     #[property(common_properties::UmpSchemaProperty<u8, schema::Ump<0x0000_FF00, 0x0, 0x0, 0x0>>)]
     ump_version_major: u8,
     #[property(common_properties::UmpSchemaProperty<u8, schema::Ump<0x0000_00FF, 0x0, 0x0, 0x0>>)]
diff --git a/midi2/src/ump_stream/function_block_discovery.rs b/midi2/src/ump_stream/function_block_discovery.rs
index 78c7595..09625b9 100644
--- a/midi2/src/ump_stream/function_block_discovery.rs
+++ b/midi2/src/ump_stream/function_block_discovery.rs
@@ -12,8 +12,8 @@ struct FunctionBlockDiscovery {
     ump_type: (),
     #[property(ump_stream::StatusProperty<STATUS>)]
     status: (),
-    #[property(ump_stream::ConsistentFormatsProperty)]
-    consistent_formats: (),
+    #[property(ump_stream::CompleteFormatProperty)]
+    complete_format: (),
 
     #[property(common_properties::UmpSchemaProperty<u8, schema::Ump<0x0000_FF00, 0x0, 0x0, 0x0>>)]
     function_block_number: u8,
diff --git a/midi2/src/ump_stream/function_block_info.rs b/midi2/src/ump_stream/function_block_info.rs
index 410945b..1685293 100644
--- a/midi2/src/ump_stream/function_block_info.rs
+++ b/midi2/src/ump_stream/function_block_info.rs
@@ -13,8 +13,8 @@ struct FunctionBlockInfo {
     ump_type: (),
     #[property(ump_stream::StatusProperty<STATUS>)]
     status: (),
-    #[property(ump_stream::ConsistentFormatsProperty)]
-    consistent_formats: (),
+    #[property(ump_stream::CompleteFormatProperty)]
+    complete_format: (),
     #[property(common_properties::UmpSchemaProperty<bool, schema::Ump<0b0000_0000_0000_0000_1000_0000_0000_0000, 0x0, 0x0, 0x0>>)]
     active: bool,
     #[property(common_properties::UmpSchemaProperty<u7, schema::Ump<0x0000_7F00, 0x0, 0x0, 0x0>>)]
diff --git a/midi2/src/ump_stream/start_of_clip.rs b/midi2/src/ump_stream/start_of_clip.rs
index ac94fb9..0dc7cbc 100644
--- a/midi2/src/ump_stream/start_of_clip.rs
+++ b/midi2/src/ump_stream/start_of_clip.rs
@@ -8,8 +8,8 @@ struct StartOfClip {
     ump_type: (),
     #[property(ump_stream::StatusProperty<STATUS>)]
     status: (),
-    #[property(ump_stream::ConsistentFormatsProperty)]
-    consistent_formats: (),
+    #[property(ump_stream::CompleteFormatProperty)]
+    complete_format: (),
 }
 
 #[cfg(test)]
diff --git a/midi2/src/ump_stream/stream_configuration_notification.rs b/midi2/src/ump_stream/stream_configuration_notification.rs
index 554bdeb..c1f566f 100644
--- a/midi2/src/ump_stream/stream_configuration_notification.rs
+++ b/midi2/src/ump_stream/stream_configuration_notification.rs
@@ -12,8 +12,8 @@ struct StreamConfigurationNotification {
     ump_type: (),
     #[property(ump_stream::StatusProperty<STATUS>)]
     status: (),
-    #[property(ump_stream::ConsistentFormatsProperty)]
-    consistent_formats: (),
+    #[property(ump_stream::CompleteFormatProperty)]
+    complete_format: (),
     #[property(common_properties::UmpSchemaProperty<u8, schema::Ump<0x0000_FF00, 0x0, 0x0, 0x0>>)]
     protocol: u8,
     #[property(common_properties::UmpSchemaProperty<bool, schema::Ump<0b0000_0000_0000_0000_0000_0000_0000_0010, 0x0, 0x0, 0x0>>)]
diff --git a/midi2/src/ump_stream/stream_configuration_request.rs b/midi2/src/ump_stream/stream_configuration_request.rs
index 8cf3879..a484672 100644
--- a/midi2/src/ump_stream/stream_configuration_request.rs
+++ b/midi2/src/ump_stream/stream_configuration_request.rs
@@ -12,8 +12,8 @@ struct StreamConfigurationRequest {
     ump_type: (),
     #[property(ump_stream::StatusProperty<STATUS>)]
     status: (),
-    #[property(ump_stream::ConsistentFormatsProperty)]
-    consistent_formats: (),
+    #[property(ump_stream::CompleteFormatProperty)]
+    complete_format: (),
     #[property(common_properties::UmpSchemaProperty<u8, schema::Ump<0x0000_FF00, 0x0, 0x0, 0x0>>)]
     protocol: u8,
     #[property(common_properties::UmpSchemaProperty<bool, schema::Ump<0b0000_0000_0000_0000_0000_0000_0000_0010, 0x0, 0x0, 0x0>>)]
-- 
2.43.0


From 4da5a5a5507862f9325861222fd5b7b1dac7a6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:07 +0000
Subject: [PATCH 09/24] fix: UMP stream name iterators stop at the end of the
 message

---
 midi2/src/ump_stream.rs                     | 8 ++++++--
 midi2/src/ump_stream/function_block_name.rs | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/midi2/src/ump_stream.rs b/midi2/src/ump_stream.rs
index 5a4a7d5..ff157cc 100644
--- a/midi2/src/ump_stream.rs
+++ b/midi2/src/ump_stream.rs
@@ -301,7 +301,11 @@ impl core::iter::Iterator for TextBytesIterator<'_> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        ((self.buffer.len() - 1) * 14, Some(self.buffer.len() * 14))
+        // zero bytes are skipped so there's no telling how many are left to read
+        let packet_capacity = 14 - self.offset;
+        let packets = self.buffer.len() / 4;
+        let read = self.packet_index * packet_capacity + self.byte_index;
+        (0, Some((packets * packet_capacity).saturating_sub(read)))
     }
 }
 
@@ -336,7 +340,7 @@ impl<'a, B: Ump> property::Property<B> for TextReadBytesProperty<'a> {
 impl<'a, B: 'a + Ump> property::ReadProperty<'a, B> for TextReadBytesProperty<'a> {
     fn read(buffer: &'a B) -> <Self as property::Property<B>>::Type {
         TextBytesIterator {
-            buffer: buffer.buffer(),
+            buffer: &buffer.buffer()[..message_size(buffer)],
             packet_index: 0,
             byte_index: 0,
             offset: 0,
diff --git a/midi2/src/ump_stream/function_block_name.rs b/midi2/src/ump_stream/function_block_name.rs
index ebfaf20..e5ccbec 100644
--- a/midi2/src/ump_stream/function_block_name.rs
+++ b/midi2/src/ump_stream/function_block_name.rs
@@ -87,7 +87,7 @@ impl<'a, B: Ump> property::Property<B> for TextReadBytesProperty<'a> {
 impl<'a, B: 'a + Ump> property::ReadProperty<'a, B> for TextReadBytesProperty<'a> {
     fn read(buffer: &'a B) -> <Self as property::Property<B>>::Type {
         ump_stream::TextBytesIterator {
-            buffer: buffer.buffer(),
+            buffer: &buffer.buffer()[..ump_stream::message_size(buffer)],
             packet_index: 0,
             byte_index: 0,
             offset: 1,
-- 
2.43.0


From 52b7a4f737c1de9a34f3ce0a13792f2d9d05b54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:16 +0000
Subject: [PATCH 10/24] fix: every packet of a function block name carries its
 function block

---
 midi2/src/ump_stream.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/midi2/src/ump_stream.rs b/midi2/src/ump_stream.rs
index ff157cc..76ac4a5 100644
--- a/midi2/src/ump_stream.rs
+++ b/midi2/src/ump_stream.rs
@@ -260,7 +260,7 @@ impl<const OFFSET: usize, B: Ump + BufferMut> property::ResizeProperty<B>
         buffer.resize(buffer_size);
         clear_payload::<OFFSET>(buffer.buffer_mut());
 
-        write_message_header_data(buffer.buffer_mut(), buffer_size);
+        write_message_header_data::<OFFSET>(buffer.buffer_mut(), buffer_size);
         set_format_fields(buffer.buffer_mut());
     }
 
@@ -272,7 +272,7 @@ impl<const OFFSET: usize, B: Ump + BufferMut> property::ResizeProperty<B>
         buffer.try_resize(buffer_size)?;
         clear_payload::<OFFSET>(buffer.buffer_mut());
 
-        write_message_header_data(buffer.buffer_mut(), buffer_size);
+        write_message_header_data::<OFFSET>(buffer.buffer_mut(), buffer_size);
         set_format_fields(buffer.buffer_mut());
 
         Ok(())
@@ -432,16 +432,21 @@ fn required_buffer_size_for_str<const OFFSET: usize>(s: &str) -> usize {
     }
 }
 
-fn write_message_header_data(buffer: &mut [u32], size: usize) {
+fn write_message_header_data<const OFFSET: usize>(buffer: &mut [u32], size: usize) {
     use crate::detail::BitOps;
     use crate::ux::u4;
 
     let status = status_from_buffer(buffer);
+    // the bytes ahead of the text (e.g. the function block) lead every packet
+    let text_prefix = buffer[0].octet(2);
 
     for packet in buffer[..size].chunks_exact_mut(4) {
         packet[0].set_nibble(0, u4::new(UMP_MESSAGE_TYPE));
         packet[0] &= !0x03FF_0000;
         packet[0] |= (status as u32) << 16;
+        if OFFSET > 0 {
+            packet[0].set_octet(2, text_prefix);
+        }
     }
 
     for packet in buffer[size..].chunks_exact_mut(4) {
-- 
2.43.0


From 1cb677eb8e1501a1cdad8f1f4ddbff0475939aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:27 +0000
Subject: [PATCH 11/24] fix: flex data messages are not confused by what is
 stored after them

---
 midi2/src/flex_data.rs | 41 ++++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/midi2/src/flex_data.rs b/midi2/src/flex_data.rs
index 7be72ef..4877081 100755
--- a/midi2/src/flex_data.rs
+++ b/midi2/src/flex_data.rs
@@ -926,10 +926,7 @@ impl<const STATUS: u8, B: Ump> Property<B> for StatusProperty<STATUS> {
 impl<'a, const STATUS: u8, B: Ump> ReadProperty<'a, B> for StatusProperty<STATUS> {
     fn read(_buffer: &'a B) -> Self::Type {}
     fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
-        if buffer
-            .buffer()
-            .chunks_exact(4)
-            .all(|packet| packet[0].octet(3) == STATUS)
+        if message_packets(buffer.buffer()).all(|packet| packet[0].octet(3) == STATUS)
         {
             Ok(())
         } else {
@@ -957,10 +954,7 @@ impl<const BANK: u8, B: Ump> Property<B> for BankProperty<BANK> {
 impl<'a, const BANK: u8, B: Ump> ReadProperty<'a, B> for BankProperty<BANK> {
     fn read(_buffer: &'a B) -> Self::Type {}
     fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
-        if buffer
-            .buffer()
-            .chunks_exact(4)
-            .all(|packet| packet[0].octet(2) == BANK)
+        if message_packets(buffer.buffer()).all(|packet| packet[0].octet(2) == BANK)
         {
             Ok(())
         } else {
@@ -1136,11 +1130,7 @@ impl<'a, B: Ump> ReadProperty<'a, B> for GroupProperty {
 
 impl<B: Ump + BufferMut> WriteProperty<B> for GroupProperty {
     fn write(buffer: &mut B, group: Self::Type) {
-        for packet in buffer
-            .buffer_mut()
-            .chunks_exact_mut(4)
-            .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
-        {
+        for packet in message_packets_mut(buffer.buffer_mut()) {
             packet[0].set_nibble(1, group);
         }
     }
@@ -1165,6 +1155,31 @@ fn flex_data_dyn_size<B: crate::buffer::Ump>(buffer: &B) -> usize {
         + 4
 }
 
+// The packets of the message at the front of the buffer
+fn message_packets(buffer: &[u32]) -> impl Iterator<Item = &[u32]> {
+    let mut finished = false;
+    buffer.chunks_exact(4).take_while(move |packet| {
+        let in_message = !finished;
+        finished = is_last_packet(packet);
+        in_message
+    })
+}
+
+// The packets of the message at the front of the buffer
+fn message_packets_mut(buffer: &mut [u32]) -> impl Iterator<Item = &mut [u32]> {
+    let mut finished = false;
+    buffer.chunks_exact_mut(4).take_while(move |packet| {
+        let in_message = !finished;
+        finished = is_last_packet(packet);
+        in_message
+    })
+}
+
+fn is_last_packet(packet: &[u32]) -> bool {
+    let format: u8 = packet[0].crumb(4).into();
+    format == COMPLETE_FORMAT || format == END_FORMAT
+}
+
 fn bank_from_buffer(buffer: &[u32]) -> u8 {
     buffer[0].octet(2)
 }
-- 
2.43.0


From adc9de011dbfd706252c8862ac2827cc2d17c767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:27 +0000
Subject: [PATCH 12/24] fix: setting the optional channel of flex data text
 updates every packet

---
 midi2/src/flex_data.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/midi2/src/flex_data.rs b/midi2/src/flex_data.rs
index 4877081..1871269 100755
--- a/midi2/src/flex_data.rs
+++ b/midi2/src/flex_data.rs
@@ -1017,9 +1017,9 @@ impl<'a, B: Ump> ReadProperty<'a, B> for OptionalChannelProperty {
 
 impl<B: Ump + BufferMut> WriteProperty<B> for OptionalChannelProperty {
     fn write(buffer: &mut B, v: Self::Type) {
-        let buffer_slice = buffer.buffer_mut();
-        let data = buffer_slice;
-        optional_channel_to_slice(data, v);
+        for packet in message_packets_mut(buffer.buffer_mut()) {
+            optional_channel_to_slice(packet, v);
+        }
     }
     fn validate(_v: &Self::Type) -> Result<(), crate::error::InvalidData> {
         Ok(())
-- 
2.43.0


From 5c1f200dc83e4ac5db08ccf396b1ecaccff96b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:36 +0000
Subject: [PATCH 13/24] fix: flex data text iterators read the whole message
 and nothing after it

---
 midi2/src/flex_data/text.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/midi2/src/flex_data/text.rs b/midi2/src/flex_data/text.rs
index d097c26..afe7deb 100644
--- a/midi2/src/flex_data/text.rs
+++ b/midi2/src/flex_data/text.rs
@@ -135,7 +135,9 @@ impl core::iter::Iterator for TextBytesIterator<'_> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        ((self.buffer.len() - 1) * 12, Some(self.buffer.len() * 12))
+        // zero bytes are skipped so there's no telling how many are left to read
+        let read = self.packet_index * 12 + self.byte_index;
+        (0, Some((self.buffer.len() * 3).saturating_sub(read)))
     }
 }
 
@@ -143,7 +145,7 @@ impl core::iter::FusedIterator for TextBytesIterator<'_> {}
 
 impl TextBytesIterator<'_> {
     fn finished(&self) -> bool {
-        self.packet_index == self.buffer.len() / 4 - 1 && self.byte_index == 11
+        self.buffer.len() / 4 <= self.packet_index
     }
     fn advance(&mut self) {
         self.byte_index += 1;
@@ -170,7 +172,7 @@ impl<'a, B: Ump> Property<B> for TextReadBytesProperty<'a> {
 impl<'a, B: 'a + Ump> ReadProperty<'a, B> for TextReadBytesProperty<'a> {
     fn read(buffer: &'a B) -> <Self as Property<B>>::Type {
         TextBytesIterator {
-            buffer: buffer.buffer(),
+            buffer: &buffer.buffer()[..flex_data::flex_data_dyn_size(buffer)],
             packet_index: 0,
             byte_index: 0,
         }
-- 
2.43.0


From 4d55c852b6bc57dacfad92701e42a330cdd2cff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:50 +0000
Subject: [PATCH 14/24] fix: check every packet of a sysex message, and no
 others, for compactness

---
 midi2/src/sysex7.rs | 8 +-------
 midi2/src/sysex8.rs | 7 +------
 2 files changed, 2 insertions(+), 13 deletions(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index e754d17..c018f1a 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -664,13 +664,7 @@ fn is_compact<B: crate::buffer::Buffer>(sysex: &Sysex7<B>) -> bool {
         crate::buffer::UNIT_ID_U8 => true,
         crate::buffer::UNIT_ID_U32 => {
             use crate::detail::BitOps;
-            for chunk in sysex
-                .0
-                .buffer()
-                .specialise_u32()
-                .chunks_exact(4)
-                .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
-            {
+            for chunk in sysex.data().specialise_u32().chunks_exact(2) {
                 let status: u8 = chunk[0].nibble(2).into();
                 let is_begin = status == 0x1;
                 let is_continue = status == 0x2;
diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index 0328a6a..bfeae4c 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -582,12 +582,7 @@ fn buffer_size_from_payload_size(payload_size: usize) -> usize {
 // will determine whether the payload data in the message is maximally
 // compact in the underlying buffer
 fn is_compact<B: crate::buffer::Buffer<Unit = u32>>(sysex: &Sysex8<B>) -> bool {
-    for chunk in sysex
-        .0
-        .buffer()
-        .chunks_exact(4)
-        .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
-    {
+    for chunk in sysex.data().chunks_exact(4) {
         let status: u8 = chunk[0].nibble(2).into();
         let is_begin = status == 0x1;
         let is_continue = status == 0x2;
-- 
2.43.0


From 397c7bd118de38e0217f379676f465dc2e91a175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:50 +0000
Subject: [PATCH 15/24] fix: skipping past the end of a sysex payload, size
 hint of byte sysex payloads

---
 midi2/src/sysex7.rs | 8 +++++---
 midi2/src/sysex8.rs | 4 ++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index c018f1a..3f6e3d0 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -436,7 +436,7 @@ impl<B: crate::buffer::Buffer> Sysex<B> for Sysex7<B> {
                     .map(PayloadIterator::<B::Unit>::packet_size)
                     .sum::<usize>();
                 PayloadIterator {
-                    data: self.0.buffer(),
+                    data: self.data(),
                     payload_index: 0,
                     packet_index: 0,
                     size_cache,
@@ -884,7 +884,8 @@ impl<U: crate::buffer::Unit> core::iter::Iterator for PayloadIterator<'_, U> {
     fn nth(&mut self, mut n: usize) -> Option<Self::Item> {
         match U::UNIT_ID {
             crate::buffer::UNIT_ID_U8 => {
-                self.payload_index += n;
+                let data_size = self.data.len();
+                self.payload_index = self.payload_index.saturating_add(n).min(data_size);
                 self.next()
             }
             crate::buffer::UNIT_ID_U32 => {
@@ -947,7 +948,8 @@ impl<U: crate::buffer::Unit> core::iter::Iterator for PayloadIterator<'_, U> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        (self.size_cache, Some(self.size_cache))
+        let remaining = self.len();
+        (remaining, Some(remaining))
     }
 }
 
diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index bfeae4c..5dffcbb 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -276,7 +276,7 @@ impl core::iter::Iterator for PayloadIterator<'_> {
         if ret.is_none() {
             // if we failed it means we ran out of data
             // so we set the iterator into finished state
-            self.packet_index = self.data.len() / 2;
+            self.packet_index = self.data.len() / 4;
             self.size_cache = 0;
         }
         ret
@@ -339,7 +339,7 @@ impl<B: crate::buffer::Ump> Sysex<B> for Sysex8<B> {
         <B as crate::buffer::Buffer>::Unit: 'a,
     {
         PayloadIterator {
-            data: self.0.buffer(),
+            data: self.data(),
             packet_index: 0,
             payload_index: 0,
             size_cache: self
-- 
2.43.0


From 12ca8a075d64b7f958c887a025b3cd6034a02e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:08 +0000
Subject: [PATCH 16/24] fix: sysex messages are not confused by what is stored
 after them

---
 midi2/src/detail/helpers.rs | 16 ++++++++++++++++
 midi2/src/sysex7.rs         |  8 ++------
 midi2/src/sysex8.rs         | 24 ++++++++----------------
 3 files changed, 26 insertions(+), 22 deletions(-)

diff --git a/midi2/src/detail/helpers.rs b/midi2/src/detail/helpers.rs
index ce58bfd..0767789 100644
--- a/midi2/src/detail/helpers.rs
+++ b/midi2/src/detail/helpers.rs
@@ -89,6 +89,22 @@ pub fn validate_sysex_group_statuses<
     Ok(())
 }
 
+// The packets of the sysex message at the front of the buffer
+#[cfg(any(feature = "sysex7", feature = "sysex8"))]
+pub fn sysex_packets_mut(
+    buffer: &mut [u32],
+    stride: usize,
+) -> impl Iterator<Item = &mut [u32]> {
+    use crate::detail::BitOps;
+    let mut finished = false;
+    buffer.chunks_exact_mut(stride).take_while(move |packet| {
+        let in_message = !finished;
+        let status: u8 = packet[0].nibble(2).into();
+        finished = status == 0x0 || status == 0x3;
+        in_message
+    })
+}
+
 pub fn try_splice_sysex_data<
     B: crate::buffer::Buffer + crate::buffer::BufferMut + crate::buffer::BufferTryResize,
     S: SysexInternal<B>,
diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index 3f6e3d0..4912fc0 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -173,6 +173,7 @@ impl<'a, B: crate::buffer::Buffer> crate::detail::property::ReadProperty<'a, B>
             if buffer
                 .specialise_u32()
                 .chunks_exact(2)
+                .take_while(|p| u8::from(p[0].nibble(0)) == UMP_MESSAGE_TYPE)
                 .any(|p| u8::from(p[0].nibble(3)) > 6)
             {
                 Err(crate::error::InvalidData(ERR_INVALID_PACKET_SIZE))
@@ -227,12 +228,7 @@ impl<B: crate::buffer::Buffer + crate::buffer::BufferMut> crate::detail::propert
 {
     fn write(buffer: &mut B, group: Self::Type) {
         if <B::Unit as crate::buffer::UnitPrivate>::UNIT_ID == crate::buffer::UNIT_ID_U32 {
-            const TYPE: ux::u4 = ux::u4::new(UMP_MESSAGE_TYPE);
-            for packet in buffer
-                .specialise_u32_mut()
-                .chunks_exact_mut(2)
-                .take_while(|packet| packet[0].nibble(0) == TYPE)
-            {
+            for packet in message_helpers::sysex_packets_mut(buffer.specialise_u32_mut(), 2) {
                 packet[0].set_nibble(1, group);
             }
         }
diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index 5dffcbb..2b67a8b 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -66,7 +66,11 @@ impl<B: crate::buffer::Ump> crate::detail::property::Property<B> for ValidPacket
 impl<'a, B: crate::buffer::Ump> crate::detail::property::ReadProperty<'a, B> for ValidPacketSizes {
     fn read(_buffer: &'a B) -> Self::Type {}
     fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
-        if buffer.buffer().chunks_exact(4).any(|p| {
+        let mut packets = buffer
+            .buffer()
+            .chunks_exact(4)
+            .take_while(|p| u8::from(p[0].nibble(0)) == UMP_MESSAGE_TYPE);
+        if packets.any(|p| {
             let number_bytes = u8::from(p[0].nibble(3));
             !(1..=14).contains(&number_bytes)
         }) {
@@ -83,11 +87,7 @@ impl<B: crate::buffer::Ump + crate::buffer::BufferMut> crate::detail::property::
     for ValidPacketSizes
 {
     fn write(buffer: &mut B, _: Self::Type) {
-        for packet in buffer
-            .buffer_mut()
-            .chunks_exact_mut(4)
-            .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
-        {
+        for packet in message_helpers::sysex_packets_mut(buffer.buffer_mut(), 4) {
             let sz = packet[0].nibble(3);
             packet[0].set_nibble(3, sz.max(ux::u4::new(1)));
         }
@@ -123,11 +123,7 @@ impl<B: crate::buffer::Ump + crate::buffer::BufferMut> crate::detail::property::
     for GroupProperty
 {
     fn write(buffer: &mut B, group: Self::Type) {
-        for packet in buffer
-            .buffer_mut()
-            .chunks_exact_mut(4)
-            .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
-        {
+        for packet in message_helpers::sysex_packets_mut(buffer.buffer_mut(), 4) {
             packet[0].set_nibble(1, group);
         }
     }
@@ -172,11 +168,7 @@ impl<B: crate::buffer::Ump + crate::buffer::BufferMut> crate::detail::property::
     for StreamIdProperty
 {
     fn write(buffer: &mut B, id: Self::Type) {
-        for packet in buffer
-            .buffer_mut()
-            .chunks_exact_mut(4)
-            .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
-        {
+        for packet in message_helpers::sysex_packets_mut(buffer.buffer_mut(), 4) {
             packet[0].set_octet(3, id);
         }
     }
-- 
2.43.0


From 4f9740daca16dbfb3ec9b197c8d8ff5bd68acd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:08 +0000
Subject: [PATCH 17/24] fix: sysex8 stream id is stored in the stream id field
 of every packet

---
 midi2/src/sysex8.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index 2b67a8b..21961a6 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -169,7 +169,7 @@ impl<B: crate::buffer::Ump + crate::buffer::BufferMut> crate::detail::property::
 {
     fn write(buffer: &mut B, id: Self::Type) {
         for packet in message_helpers::sysex_packets_mut(buffer.buffer_mut(), 4) {
-            packet[0].set_octet(3, id);
+            packet[0].set_octet(2, id);
         }
     }
     fn validate(_v: &Self::Type) -> Result<(), crate::error::InvalidData> {
@@ -509,6 +509,7 @@ fn try_resize<
         .take(buffer_size / 4)
         .peekable();
     let mut group = None;
+    let mut stream_id = 0;
 
     const MESSAGE_TYPE: u4 = u4::new(UMP_MESSAGE_TYPE);
     const STATUS_COMPLETE: u4 = u4::new(0x0);
@@ -520,6 +521,7 @@ fn try_resize<
     if let Some(first_packet) = iter.next() {
         first_packet[0].set_nibble(0, MESSAGE_TYPE);
         group = Some(first_packet[0].nibble(1));
+        stream_id = stream_id_from_packet(first_packet);
         if iter.peek().is_some() {
             // start packet
             first_packet[0].set_nibble(2, STATUS_START);
@@ -534,6 +536,7 @@ fn try_resize<
     while let Some(chunk) = iter.next() {
         chunk[0].set_nibble(0, MESSAGE_TYPE);
         chunk[0].set_nibble(1, group.unwrap());
+        chunk[0].set_octet(2, stream_id);
         if iter.peek().is_some() {
             // middle packet
             chunk[0].set_nibble(2, STATUS_CONTINUE);
-- 
2.43.0


From 26151ca8542841fc3879135ab99d7a8eb3cf3d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:36 +0000
Subject: [PATCH 18/24] fix: sysex7 byte messages with payload bytes over 0x7F
 are invalid

---
 midi2/src/sysex7.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index 4912fc0..9ce7a40 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -36,6 +36,7 @@ struct Sysex7 {
 
 const ERR_NO_BEGIN_BYTE: &str = "Sysex messages should begin 0xF0";
 const ERR_NO_END_BYTE: &str = "Sysex messages should end 0xF7";
+const ERR_INVALID_PAYLOAD_BYTE: &str = "Sysex payload bytes should be in the range 0x00-0x7F";
 const ERR_INVALID_PACKET_SIZE: &str = "Size field can not exceed 6";
 
 const START_BYTE: u8 = 0xF0;
@@ -98,9 +99,15 @@ impl<'a, B: crate::buffer::Buffer> crate::detail::property::ReadProperty<'a, B>
             crate::buffer::UNIT_ID_U8 => buffer
                 .specialise_u8()
                 .iter()
-                .position(|b| *b == 0xF7)
-                .map(|_| ())
-                .ok_or(crate::error::InvalidData(ERR_NO_END_BYTE)),
+                .skip(1)
+                .find(|b| **b > 0x7F)
+                .map_or(Err(crate::error::InvalidData(ERR_NO_END_BYTE)), |b| {
+                    if *b == END_BYTE {
+                        Ok(())
+                    } else {
+                        Err(crate::error::InvalidData(ERR_INVALID_PAYLOAD_BYTE))
+                    }
+                }),
             crate::buffer::UNIT_ID_U32 => Ok(()),
             _ => unreachable!(),
         }
-- 
2.43.0


From 45c6d09f04fd6049de4261524db256d1860ebb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:36 +0000
Subject: [PATCH 19/24] fix: growing a sysex7 byte message isn't affected by
 the previous contents of its buffer

---
 midi2/src/sysex7.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index 9ce7a40..a538496 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -538,7 +538,7 @@ impl<B: crate::buffer::Buffer> SysexInternal<B> for Sysex7<B> {
                 self.0.resize(buffer_sz);
                 if payload_size > old_payload_size {
                     // erase old end bit
-                    self.0.specialise_u8_mut()[old_payload_size + 1] = 0;
+                    self.0.specialise_u8_mut()[old_payload_size + 1..buffer_sz].fill(0);
                 }
                 self.0.specialise_u8_mut()[buffer_sz - 1] = END_BYTE;
             }
@@ -567,8 +567,8 @@ impl<B: crate::buffer::Buffer> SysexInternal<B> for Sysex7<B> {
                     crate::traits::SysexTryResizeError(buffer_sz.saturating_sub(2))
                 });
                 if buffer_sz > old_payload_size {
-                    // erase old end bit
-                    self.0.specialise_u8_mut()[old_payload_size + 1] = 0;
+                    // erase old end bit and whatever was stored after the message
+                    self.0.specialise_u8_mut()[old_payload_size + 1..buffer_sz].fill(0);
                 }
                 self.0.specialise_u8_mut()[buffer_sz - 1] = END_BYTE;
                 result
-- 
2.43.0


From 801d7c019126c1eb56160c9a5614e0ddacd48c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:13 +0000
Subject: [PATCH 20/24] fix: zero the unused payload bytes of complete sysex
 packets

---
 midi2/src/sysex7.rs |  4 ++++
 midi2/src/sysex8.rs | 20 ++++++++++++++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index a538496..e27c382 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -775,6 +775,10 @@ fn try_resize_ump<
             // complete packet
             first_packet[0].set_nibble(2, STATUS_COMPLETE);
             first_packet[0].set_nibble(3, u4::new(payload_size as u8));
+            // zero off the end of the packet
+            for i in payload_size..6 {
+                first_packet[(i + 2) / 4].set_octet((i + 2) % 4, 0x0);
+            }
         }
     }
 
diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index 21961a6..2139502 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -416,7 +416,8 @@ impl<B: crate::buffer::Ump> SysexInternal<B> for Sysex8<B> {
             s.0.resize(sz);
             Ok(())
         })
-        .unwrap()
+        .unwrap();
+        clear_complete_packet_padding(self);
     }
 
     fn try_resize(
@@ -426,7 +427,9 @@ impl<B: crate::buffer::Ump> SysexInternal<B> for Sysex8<B> {
     where
         B: crate::buffer::BufferMut + crate::buffer::BufferTryResize,
     {
-        try_resize(self, payload_size, |s, sz| s.0.try_resize(sz))
+        let result = try_resize(self, payload_size, |s, sz| s.0.try_resize(sz));
+        clear_complete_packet_padding(self);
+        result
     }
 
     fn write_datum(&mut self, datum: Self::Byte, payload_index: usize)
@@ -562,6 +565,19 @@ fn try_resize<
     resize_result.map_err(|_| crate::traits::SysexTryResizeError(payload_size))
 }
 
+// zero off the unused payload bytes of a message with only one packet
+fn clear_complete_packet_padding<B: crate::buffer::Ump + crate::buffer::BufferMut>(
+    sysex: &mut Sysex8<B>,
+) {
+    if sysex.data().len() == 4 {
+        let payload_size = sysex.payload_size();
+        let packet = sysex.0.buffer_mut();
+        for i in payload_size..13 {
+            packet[(i + 3) / 4].set_octet((i + 3) % 4, 0x0);
+        }
+    }
+}
+
 fn buffer_size_from_payload_size(payload_size: usize) -> usize {
     if payload_size.is_multiple_of(13) {
         if payload_size == 0 {
-- 
2.43.0


From d06ddeab8d4ddb700292123ca8f1feef0e6a2779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:13 +0000
Subject: [PATCH 21/24] fix: splicing sysex payloads when space runs short
 after underestimating

---
 midi2/src/detail/helpers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi2/src/detail/helpers.rs b/midi2/src/detail/helpers.rs
index 0767789..7d9832c 100644
--- a/midi2/src/detail/helpers.rs
+++ b/midi2/src/detail/helpers.rs
@@ -245,7 +245,7 @@ mod detail {
                     ) {
                         // failed. we'll work with what we've got
                         running_data_size_estimate = sz.saturating_sub(initial_size - splice_size);
-                        to = splice_begin + running_data_size_estimate - splice_size;
+                        to = splice_begin + running_data_size_estimate;
                     };
                 }
 
-- 
2.43.0


From bf19888d54fe20e4259fab086344784915e3e319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:45 +0000
Subject: [PATCH 22/24] fix: payload iterators with very large size hints
 overflow the buffer, not the size arithmetic

---
 midi2/src/detail/helpers.rs | 9 +++------
 midi2/src/flex_data.rs      | 6 ++----
 midi2/src/sysex7.rs         | 2 +-
 midi2/src/sysex8.rs         | 2 +-
 midi2/src/ump_stream.rs     | 3 +--
 5 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/midi2/src/detail/helpers.rs b/midi2/src/detail/helpers.rs
index 7d9832c..09497ef 100644
--- a/midi2/src/detail/helpers.rs
+++ b/midi2/src/detail/helpers.rs
@@ -91,10 +91,7 @@ pub fn validate_sysex_group_statuses<
 
 // The packets of the sysex message at the front of the buffer
 #[cfg(any(feature = "sysex7", feature = "sysex8"))]
-pub fn sysex_packets_mut(
-    buffer: &mut [u32],
-    stride: usize,
-) -> impl Iterator<Item = &mut [u32]> {
+pub fn sysex_packets_mut(buffer: &mut [u32], stride: usize) -> impl Iterator<Item = &mut [u32]> {
     use crate::detail::BitOps;
     let mut finished = false;
     buffer.chunks_exact_mut(stride).take_while(move |packet| {
@@ -195,12 +192,12 @@ mod detail {
         let mut additional_size_for_overflow = 1;
         let mut data = data.peekable();
 
-        if splice_end < splice_end + running_data_size_estimate - splice_size {
+        if splice_size < running_data_size_estimate {
             // we need to grow
             // initial buffer resize
             if let Err(SysexTryResizeError(sz)) = resize(
                 sysex,
-                running_data_size_estimate + initial_size - splice_size,
+                running_data_size_estimate.saturating_add(initial_size - splice_size),
             ) {
                 // failed. we'll work with what we've got
                 running_data_size_estimate = sz.saturating_sub(initial_size - splice_size);
diff --git a/midi2/src/flex_data.rs b/midi2/src/flex_data.rs
index 1871269..3fca686 100755
--- a/midi2/src/flex_data.rs
+++ b/midi2/src/flex_data.rs
@@ -926,8 +926,7 @@ impl<const STATUS: u8, B: Ump> Property<B> for StatusProperty<STATUS> {
 impl<'a, const STATUS: u8, B: Ump> ReadProperty<'a, B> for StatusProperty<STATUS> {
     fn read(_buffer: &'a B) -> Self::Type {}
     fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
-        if message_packets(buffer.buffer()).all(|packet| packet[0].octet(3) == STATUS)
-        {
+        if message_packets(buffer.buffer()).all(|packet| packet[0].octet(3) == STATUS) {
             Ok(())
         } else {
             Err(crate::error::InvalidData("Incorrect message status"))
@@ -954,8 +953,7 @@ impl<const BANK: u8, B: Ump> Property<B> for BankProperty<BANK> {
 impl<'a, const BANK: u8, B: Ump> ReadProperty<'a, B> for BankProperty<BANK> {
     fn read(_buffer: &'a B) -> Self::Type {}
     fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
-        if message_packets(buffer.buffer()).all(|packet| packet[0].octet(2) == BANK)
-        {
+        if message_packets(buffer.buffer()).all(|packet| packet[0].octet(2) == BANK) {
             Ok(())
         } else {
             Err(crate::error::InvalidData("Incorrect message bank"))
diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index e27c382..0417465 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -561,7 +561,7 @@ impl<B: crate::buffer::Buffer> SysexInternal<B> for Sysex7<B> {
         match <B::Unit as crate::buffer::UnitPrivate>::UNIT_ID {
             crate::buffer::UNIT_ID_U8 => {
                 let old_payload_size = self.payload_size();
-                let mut buffer_sz = payload_size + 2;
+                let mut buffer_sz = payload_size.saturating_add(2);
                 let result = self.0.try_resize(buffer_sz).map_err(|_| {
                     buffer_sz = self.0.buffer().len();
                     crate::traits::SysexTryResizeError(buffer_sz.saturating_sub(2))
diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index 2139502..22224f1 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -583,7 +583,7 @@ fn buffer_size_from_payload_size(payload_size: usize) -> usize {
         if payload_size == 0 {
             4
         } else {
-            payload_size * 4 / 13
+            payload_size / 13 * 4
         }
     } else {
         4 * (payload_size / 13 + 1)
diff --git a/midi2/src/ump_stream.rs b/midi2/src/ump_stream.rs
index 76ac4a5..f48cc7b 100644
--- a/midi2/src/ump_stream.rs
+++ b/midi2/src/ump_stream.rs
@@ -123,8 +123,7 @@ impl<const STATUS: u16, B: Ump> property::Property<B> for StatusProperty<STATUS>
 impl<'a, const STATUS: u16, B: Ump> property::ReadProperty<'a, B> for StatusProperty<STATUS> {
     fn read(_buffer: &'a B) -> Self::Type {}
     fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
-        if message_packets(buffer.buffer()).all(|packet| status_from_buffer(packet) == STATUS)
-        {
+        if message_packets(buffer.buffer()).all(|packet| status_from_buffer(packet) == STATUS) {
             Ok(())
         } else {
             Err(crate::error::InvalidData("Incorrect message status"))
-- 
2.43.0


From 798c410d6afe50b6949113cdf0e249a0387d0180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:41 +0000
Subject: [PATCH 23/24] fix: 7 bit sysex payload octets written over used
 storage keep their top bit zero

---
 midi2/src/sysex7.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index 0417465..16bbd8d 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -488,7 +488,7 @@ impl<B: crate::buffer::Buffer> Sysex<B> for Sysex7<B> {
                     let sz = (u8::from(buffer[packet_index * 2].nibble(3))) as usize;
                     if index < sz {
                         buffer[packet_index * 2 + (index + 2) / 4]
-                            .set_septet((index + 2) % 4, byte);
+                            .set_octet((index + 2) % 4, byte.into());
                         break;
                     }
                     index -= sz;
@@ -594,7 +594,7 @@ impl<B: crate::buffer::Buffer> SysexInternal<B> for Sysex7<B> {
                 let buffer_index = 2 * (payload_index / 6);
                 let byte_index = payload_index % 6;
                 self.0.specialise_u32_mut()[buffer_index + (byte_index + 2) / 4]
-                    .set_septet((byte_index + 2) % 4, datum);
+                    .set_octet((byte_index + 2) % 4, datum.into());
             }
             _ => unreachable!(),
         }
-- 
2.43.0


From 0675729d03b62da5d5d23bc42db568cba9888aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:26 +0000
Subject: [PATCH 24/24] fix: sysex packets validate their size and their
 payload iterators skip correctly

---
 midi2/src/sysex7/packet.rs |  4 ++--
 midi2/src/sysex8/packet.rs | 24 +++++++++++++++++-------
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/midi2/src/sysex7/packet.rs b/midi2/src/sysex7/packet.rs
index 9797cd6..9bf11e4 100644
--- a/midi2/src/sysex7/packet.rs
+++ b/midi2/src/sysex7/packet.rs
@@ -94,8 +94,8 @@ impl core::iter::Iterator for PayloadIterator<'_> {
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         use crate::detail::BitOps;
-        if self.index + n >= self.packet_size() {
-            self.index = (self.index + n).min(6);
+        if n >= self.len() {
+            self.index = self.packet_size();
             return None;
         }
         let v = self.data[(self.index + n + 2) / 4].septet((self.index + n + 2) % 4);
diff --git a/midi2/src/sysex8/packet.rs b/midi2/src/sysex8/packet.rs
index 21a807e..ec9ea35 100644
--- a/midi2/src/sysex8/packet.rs
+++ b/midi2/src/sysex8/packet.rs
@@ -31,7 +31,15 @@ impl<'a> core::convert::TryFrom<&'a [u32]> for Packet {
             ));
         }
 
-        status_from_data(data)?;
+        let status = status_from_data(data)?;
+
+        if !(1..=14).contains(&u8::from(data[0].nibble(3)))
+            && status != Status::UnexpectedEnd(PreviousDataValidity::Invalid)
+        {
+            return Err(error::InvalidData(
+                sysex8::ERR_INVALID_NUMBER_OF_PAYLOAD_BYTES,
+            ));
+        }
 
         Ok(Packet({
             let mut buffer = [0x0; 4];
@@ -122,12 +130,12 @@ impl core::iter::Iterator for PayloadIterator<'_> {
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         use crate::detail::BitOps;
-        if self.index + n >= self.packet_size() {
-            self.index += n;
+        if n >= self.len() {
+            self.index = self.packet_size();
             return None;
         }
         let v = self.data[(self.index + n + 3) / 4].octet((self.index + n + 3) % 4);
-        self.index = (self.index + n).min(13);
+        self.index += n + 1;
         Some(v)
     }
 
@@ -152,9 +160,11 @@ impl core::iter::ExactSizeIterator for PayloadIterator<'_> {
 impl PayloadIterator<'_> {
     fn packet_size(&self) -> usize {
         use crate::detail::BitOps;
-        let len = u8::from(self.data[0].nibble(3)) as usize - 1;
-        debug_assert!(len <= 13);
-        len
+        match u8::from(self.data[0].nibble(3)) as usize {
+            len @ 1..=14 => len - 1,
+            // unexpected end
+            _ => 0,
+        }
     }
 }
 
-- 
2.43.0

