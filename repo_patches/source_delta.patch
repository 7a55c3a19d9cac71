From 05233e5643851ab3e353e82ee30b7e87c90cc11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:13 +0000
Subject: [PATCH 01/48] fix: decoding a truncated packet returns an error
 instead of panicking

Every fixed width read in the codec used the panicking bytes getters, so a
packet whose declared length ends inside a field aborted the task (and, with
it, the connection handler) instead of being reported as malformed. A PUBLISH
with QoS 3 in its fixed header is rejected as well.
---
 vaux-macro/src/decode.rs     | 11 +++++++---
 vaux-mqtt/src/codec/fixed.rs |  2 +-
 vaux-mqtt/src/codec/mod.rs   | 42 ++++++++++++++++++++++++++----------
 vaux-mqtt/src/connect.rs     | 16 +++++++-------
 vaux-mqtt/src/publish.rs     |  8 +++----
 5 files changed, 52 insertions(+), 27 deletions(-)

diff --git a/vaux-macro/src/decode.rs b/vaux-macro/src/decode.rs
index 500599f..96f1bff 100644
--- a/vaux-macro/src/decode.rs
+++ b/vaux-macro/src/decode.rs
@@ -83,7 +83,7 @@ pub(crate) fn decode_internal(input: TokenStream) -> TokenStream {
             bytes_read += var_bytes_read;
             let mut property_bytes_read = 0_usize;
             while property_bytes_read < property_length {
-                let property_type = src.get_u8().try_into()?;
+                let property_type = src.try_get_u8()?.try_into()?;
                 property_bytes_read += 1;
                 match property_type {
                     #(#property_field_decode)*
@@ -282,12 +282,17 @@ pub(crate) fn decode_field(field: &syn::Field) -> proc_macro2::TokenStream {
                     }
                     type_name => {
                         if is_primitive_type(type_name) {
-                            decode_for_primitive(
+                            let decode_primitive = decode_for_primitive(
                                 field_name,
                                 &inner_field_type,
                                 optional_field,
                                 &property_type,
-                            )
+                            );
+                            // the primitive getters panic when the packet is truncated
+                            quote! {
+                                codec::ensure_remaining(src, core::mem::size_of::<#inner_field_type>())?;
+                                #decode_primitive
+                            }
                         } else {
                             decode_for_type(
                                 field_name,
diff --git a/vaux-mqtt/src/codec/fixed.rs b/vaux-mqtt/src/codec/fixed.rs
index c967acc..932067c 100644
--- a/vaux-mqtt/src/codec/fixed.rs
+++ b/vaux-mqtt/src/codec/fixed.rs
@@ -132,7 +132,7 @@ impl Decode for FixedHeader {
             }
             _ => {}
         }
-        self.flags = flags;
+        self.set_flags(flags)?;
         Ok(1)
     }
 }
diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index 68c55fa..c67bd38 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -223,7 +223,7 @@ impl Encode for Reason {
 
 impl Decode for Reason {
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
-        let val = src.get_u8();
+        let val = src.try_get_u8()?;
         *self = val.try_into()?;
         Ok(1)
     }
@@ -244,7 +244,7 @@ impl Decode for Vec<Reason> {
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
         let len = src.remaining();
         for _ in 0..len {
-            let reason = src.get_u8().try_into()?;
+            let reason = src.try_get_u8()?.try_into()?;
             self.push(reason);
         }
         Ok(len)
@@ -286,7 +286,7 @@ impl Encode for QoSLevel {
 
 impl Decode for QoSLevel {
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
-        let val = src.get_u8();
+        let val = src.try_get_u8()?;
         *self = val.try_into()?;
         Ok(1)
     }
@@ -413,8 +413,28 @@ impl From<std::io::Error> for MqttCodecError {
     }
 }
 
+impl From<bytes::TryGetError> for MqttCodecError {
+    fn from(err: bytes::TryGetError) -> Self {
+        MqttCodecError::new_with_kind(
+            "packet ends inside a field",
+            ErrorKind::InsufficientData(err.requested, err.available),
+        )
+    }
+}
+
 impl std::error::Error for MqttCodecError {}
 
+/// Checks that at least `required` bytes are left in the source buffer.
+pub(crate) fn ensure_remaining(src: &BytesMut, required: usize) -> Result<(), MqttCodecError> {
+    if src.remaining() < required {
+        return Err(MqttCodecError::new_with_kind(
+            "packet ends inside a field",
+            ErrorKind::InsufficientData(required, src.remaining()),
+        ));
+    }
+    Ok(())
+}
+
 impl MqttCodecError {
     pub fn new(reason: &str) -> Self {
         MqttCodecError {
@@ -545,7 +565,7 @@ impl Decode for String {
         if src.len() < 2 {
             return Err(MqttCodecError::new("malformed Mqtt packet: string length"));
         }
-        let len = src.get_u16();
+        let len = src.try_get_u16()?;
         let mut dest_vec = vec![0; len as usize];
 
         src.try_copy_to_slice(&mut dest_vec).map_err(|e| {
@@ -592,7 +612,7 @@ impl Decode for Vec<u8> {
         if src.remaining() < 2 {
             return Err(MqttCodecError::new("Insufficient data for binary length"));
         }
-        let len = src.get_u16() as usize;
+        let len = src.try_get_u16()? as usize;
         self.resize(len, 0);
         let dest_buf: &mut [u8] = &mut self[0..len];
         src.try_copy_to_slice(dest_buf).map_err(|e| {
@@ -608,7 +628,7 @@ impl Decode for Vec<u8> {
 
 impl Decode for bool {
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
-        *self = match src.get_u8() {
+        *self = match src.try_get_u8()? {
             0 => Ok(false),
             1 => Ok(true),
             v => Err(MqttCodecError::new(&format!(
@@ -622,21 +642,21 @@ impl Decode for bool {
 
 impl Decode for u8 {
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
-        *self = src.get_u8();
+        *self = src.try_get_u8()?;
         Ok(1)
     }
 }
 
 impl Decode for u16 {
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
-        *self = src.get_u16();
+        *self = src.try_get_u16()?;
         Ok(2)
     }
 }
 
 impl Decode for u32 {
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
-        *self = src.get_u32();
+        *self = src.try_get_u32()?;
         Ok(4)
     }
 }
@@ -710,7 +730,7 @@ pub fn decode_variable_byte_int(src: &mut BytesMut) -> Result<(u32, usize), Mqtt
     }
     let mut result = 0_u32;
     let mut shift = 0;
-    let mut next_byte = src.get_u8();
+    let mut next_byte = src.try_get_u8()?;
     let mut decode = true;
     while decode {
         result += ((next_byte & 0x7f) as u32) << shift;
@@ -724,7 +744,7 @@ pub fn decode_variable_byte_int(src: &mut BytesMut) -> Result<(u32, usize), Mqtt
                     ErrorKind::InsufficientData(1, 0),
                 ));
             }
-            next_byte = src.get_u8();
+            next_byte = src.try_get_u8()?;
         }
         if shift > 21 {
             return Err(MqttCodecError::new(
diff --git a/vaux-mqtt/src/connect.rs b/vaux-mqtt/src/connect.rs
index 6ac087d..bd5d3cf 100644
--- a/vaux-mqtt/src/connect.rs
+++ b/vaux-mqtt/src/connect.rs
@@ -195,11 +195,11 @@ impl codec::Decode for Connect {
 
         // header fields
         bytes_read += self.protocol_name.decode(src)?;
-        self.protocol_version = src.get_u8();
+        self.protocol_version = src.try_get_u8()?;
         bytes_read += 1;
-        self.connect_flags = src.get_u8();
+        self.connect_flags = src.try_get_u8()?;
         bytes_read += 1;
-        self.keep_alive = src.get_u16();
+        self.keep_alive = src.try_get_u16()?;
         bytes_read += 2;
 
         // properties
@@ -208,7 +208,7 @@ impl codec::Decode for Connect {
         bytes_read += var_bytes_read;
         let mut property_bytes_read = 0_usize;
         while property_bytes_read < property_length {
-            let property_type: PropertyType = src.get_u8().try_into()?;
+            let property_type: PropertyType = src.try_get_u8()?.try_into()?;
             property_bytes_read += 1;
             match property_type {
                 PropertyType::SessionExpiryInterval => {
@@ -217,7 +217,7 @@ impl codec::Decode for Connect {
                     self.session_expiry_interval = Some(value);
                 }
                 PropertyType::RecvMax => {
-                    self.receive_maximum = Some(src.get_u16());
+                    self.receive_maximum = Some(src.try_get_u16()?);
                     property_bytes_read += 2;
                 }
                 PropertyType::MaxPacketSize => {
@@ -226,15 +226,15 @@ impl codec::Decode for Connect {
                     self.max_packet_size = Some(value);
                 }
                 PropertyType::TopicAliasMax => {
-                    self.topic_alias_maximum = Some(src.get_u16());
+                    self.topic_alias_maximum = Some(src.try_get_u16()?);
                     property_bytes_read += 2;
                 }
                 PropertyType::ReqRespInfo => {
-                    self.request_response_info = Some(src.get_u8() != 0);
+                    self.request_response_info = Some(src.try_get_u8()? != 0);
                     property_bytes_read += 1;
                 }
                 PropertyType::ReqProblemInfo => {
-                    self.request_problem_info = Some(src.get_u8() != 0);
+                    self.request_problem_info = Some(src.try_get_u8()? != 0);
                     property_bytes_read += 1;
                 }
                 PropertyType::AuthMethod => {
diff --git a/vaux-mqtt/src/publish.rs b/vaux-mqtt/src/publish.rs
index bbd2b09..1eeca8c 100644
--- a/vaux-mqtt/src/publish.rs
+++ b/vaux-mqtt/src/publish.rs
@@ -35,7 +35,7 @@ impl codec::Encode for PayloadFormat {
 
 impl codec::Decode for PayloadFormat {
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
-        *self = PayloadFormat::try_from(src.get_u8())?;
+        *self = PayloadFormat::try_from(src.try_get_u8()?)?;
         Ok(1)
     }
 }
@@ -284,7 +284,7 @@ impl codec::Decode for Publish {
         bytes_read += self.topic_name.decode(src)?;
 
         if self.fixed_header.qos() != QoSLevel::AtMostOnce {
-            self.packet_id = Some(src.get_u16());
+            self.packet_id = Some(src.try_get_u16()?);
             bytes_read += 2;
         }
 
@@ -293,7 +293,7 @@ impl codec::Decode for Publish {
         bytes_read += var_bytes_read;
         let mut property_bytes_read = 0_usize;
         while property_bytes_read < property_length {
-            let property_type: PropertyType = src.get_u8().try_into()?;
+            let property_type: PropertyType = src.try_get_u8()?.try_into()?;
             property_bytes_read += 1;
             match property_type {
                 PropertyType::MessageExpiry => {
@@ -307,7 +307,7 @@ impl codec::Decode for Publish {
                     self.payload_format = Some(value);
                 }
                 PropertyType::TopicAlias => {
-                    self.topic_alias = Some(src.get_u16());
+                    self.topic_alias = Some(src.try_get_u16()?);
                     property_bytes_read += 2;
                 }
                 PropertyType::ResponseTopic => {
-- 
2.43.0


From 9dfd99d69fd8008192ae3d2483a7551da1257619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:46 +0000
Subject: [PATCH 02/48] fix: a complete packet that ends inside a field is
 malformed, not incomplete

The stream reader waits for more bytes on InsufficientData; for a packet whose
remaining length has already arrived it waited for ever (or re-decoded it on
every further read).
---
 vaux-mqtt/src/codec/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index c67bd38..e3041a4 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -490,6 +490,18 @@ pub fn decode(src: &mut BytesMut) -> Result<Option<(Packet, usize)>, MqttCodecEr
         }
         _ => {}
     }
+    // the whole packet has arrived, anything missing in its fields will never come
+    decode_body(fixed_header, src, decode_len).map_err(|e| match e.kind {
+        ErrorKind::InsufficientData(_, _) => MqttCodecError::new(&e.reason),
+        _ => e,
+    })
+}
+
+fn decode_body(
+    fixed_header: FixedHeader,
+    src: &mut BytesMut,
+    mut decode_len: usize,
+) -> Result<Option<(Packet, usize)>, MqttCodecError> {
     match fixed_header.packet_type {
         PacketType::PingReq => Ok(Some((Packet::PingRequest(crate::PingReq::default()), decode_len))),
         PacketType::PingResp => Ok(Some((
-- 
2.43.0


From 96bf428754512fe0eadf2e1d39224ff7fde9f68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:28 +0000
Subject: [PATCH 03/48] fix: accept four byte variable byte integers

Remaining lengths and property lengths of 2,097,152 and more were encoded but
rejected as malformed when decoded.
---
 vaux-mqtt/src/codec/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index e3041a4..df90a6b 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -758,7 +758,7 @@ pub fn decode_variable_byte_int(src: &mut BytesMut) -> Result<(u32, usize), Mqtt
             }
             next_byte = src.try_get_u8()?;
         }
-        if shift > 21 {
+        if decode && shift > 21 {
             return Err(MqttCodecError::new(
                 "malformed packet: variable byte integer",
             ));
-- 
2.43.0


From 34fd984590f298af4c60bc02a135ebc7683476d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:47 +0000
Subject: [PATCH 04/48] fix: count the bytes of a decoded user property once

The length prefixes were counted twice, so properties after a user property
were skipped and the rest of the packet was decoded from the wrong offset.
---
 vaux-mqtt/src/property.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vaux-mqtt/src/property.rs b/vaux-mqtt/src/property.rs
index e697cd3..e05ce50 100644
--- a/vaux-mqtt/src/property.rs
+++ b/vaux-mqtt/src/property.rs
@@ -179,9 +179,10 @@ impl codec::Encode for UserProperty {
 impl codec::Decode for UserProperty {
     /// Decode a single user property key-value pair and add it to the map.
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
+        // the lengths reported by decode_string include the two byte length prefix
         let (key_value, key_len) = codec::decode_string(src)?;
         let (value, len) = codec::decode_string(src)?;
-        let bytes_read = 2 + key_len + 2 + len;
+        let bytes_read = key_len + len;
         self.0.entry(key_value).or_default().push(value);
         Ok(bytes_read)
     }
-- 
2.43.0


From 6b2be5a532e73dd377587e693b14cde2d238e96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:01 +0000
Subject: [PATCH 05/48] fix: CONNECT carries the will topic before the will
 payload

MQTT 5 orders the payload will properties, will topic, will payload; both
directions had topic and payload swapped, so wills of other clients were
published with topic and payload exchanged. An empty will payload is written as
zero length binary data instead of being left out.
---
 vaux-mqtt/src/connect.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/vaux-mqtt/src/connect.rs b/vaux-mqtt/src/connect.rs
index bd5d3cf..3e125d7 100644
--- a/vaux-mqtt/src/connect.rs
+++ b/vaux-mqtt/src/connect.rs
@@ -49,10 +49,10 @@ pub struct Connect {
     pub client_id: String,
     #[codec(payload_type = "field")]
     pub(crate) will_properties: Option<WillHeader>,
-    #[codec(payload_type = "field", skip_if = "Vec::is_empty")]
-    pub(crate) will_payload: Vec<u8>,
     #[codec(payload_type = "field")]
     pub(crate) will_topic: Option<String>,
+    #[codec(payload_type = "field")]
+    pub(crate) will_payload: Option<Vec<u8>>,
     #[codec(skip_if = "String::is_empty", payload_type = "field")]
     username: String,
     #[codec(skip_if = "Vec::is_empty", payload_type = "field")]
@@ -89,8 +89,8 @@ impl Connect {
             user_properties: property::UserProperty::new(),
             client_id: uuid::Uuid::new_v4().to_string(),
             will_properties: None,
-            will_payload: Vec::new(),
             will_topic: None,
+            will_payload: None,
             username: String::new(),
             password: Vec::new(),
         }
@@ -168,7 +168,7 @@ impl Connect {
         if self.will() {
             Some(WillMessage {
                 topic: self.will_topic.clone().unwrap_or_default(),
-                payload: bytes::Bytes::from(self.will_payload.clone()),
+                payload: bytes::Bytes::from(self.will_payload.clone().unwrap_or_default()),
                 qos: self.will_qos().unwrap_or(QoSLevel::AtMostOnce),
                 retain: self.will_retain(),
                 header: self.will_properties.clone().unwrap_or_default(),
@@ -180,7 +180,7 @@ impl Connect {
 
     pub fn set_will_message(&mut self, will: WillMessage) {
         self.will_topic = Some(will.topic);
-        self.will_payload = will.payload.to_vec();
+        self.will_payload = Some(will.payload.to_vec());
         self.will_properties = Some(will.header);
         self.set_will(true);
         self.set_will_qos(will.qos);
@@ -273,14 +273,14 @@ impl codec::Decode for Connect {
             bytes_read += will_header.decode(src)?;
             self.will_properties = Some(will_header);
 
-            let mut value = Vec::new();
-            let var_bytes_read = value.decode(src)?;
-            bytes_read += var_bytes_read;
-            self.will_payload = value;
-
             let mut value = String::default();
             bytes_read += value.decode(src)?;
             self.will_topic = Some(value);
+
+            let mut value = Vec::new();
+            let var_bytes_read = value.decode(src)?;
+            bytes_read += var_bytes_read;
+            self.will_payload = Some(value);
         }
 
         // payload: username (only if USERNAME flag set)
-- 
2.43.0


From ffb20d4a23847a6fcc72593afbd77d2f284249bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:32 +0000
Subject: [PATCH 06/48] fix: count the length prefix of empty optional binary
 data

The encoder writes the prefix for Some(empty), the size left it out, so a
CONNECT with an empty will payload announced a remaining length two bytes too
short.
---
 vaux-macro/src/size.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/vaux-macro/src/size.rs b/vaux-macro/src/size.rs
index 570f88b..4c0bf9b 100644
--- a/vaux-macro/src/size.rs
+++ b/vaux-macro/src/size.rs
@@ -266,9 +266,7 @@ fn size_for_vec(
     if optional {
         quote! {
             if let Some(#field_name) = &self.#field_name {
-                if !#field_name.is_empty() {
-                    #size_prefix #field_size;
-                }
+                #size_prefix #field_size;
             }
         }
     } else {
-- 
2.43.0


From 23953ad9d7fc3d5ee9855ebf65412499f4eec30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:32 +0000
Subject: [PATCH 07/48] fix: count binary data properties as property bytes
 when decoding

Correlation data and authentication data were not counted, so the decoder went
on reading properties from the bytes behind the property section.
---
 vaux-macro/src/decode.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/vaux-macro/src/decode.rs b/vaux-macro/src/decode.rs
index 96f1bff..8c71283 100644
--- a/vaux-macro/src/decode.rs
+++ b/vaux-macro/src/decode.rs
@@ -435,8 +435,13 @@ fn decode_for_vec(
     field_name: &syn::Ident,
     type_path: &syn::TypePath,
     optional_field: bool,
-    _property_type: &Option<syn::Path>,
+    property_type: &Option<syn::Path>,
 ) -> proc_macro2::TokenStream {
+    let read = if property_type.is_some() {
+        quote! { property_bytes_read }
+    } else {
+        quote! { bytes_read }
+    };
     let decode_stmt = match &type_path.path.segments.last().unwrap().arguments {
         syn::PathArguments::AngleBracketed(args) => match args.args.first().unwrap() {
             syn::GenericArgument::Type(syn::Type::Path(vec_inner_type_path)) => {
@@ -454,14 +459,14 @@ fn decode_for_vec(
                             quote! {
                                 let mut value = Vec::new();
                                 let var_bytes_read = value.decode(src)?;
-                                bytes_read += var_bytes_read;  
+                                #read += var_bytes_read;  
                                 self.#field_name = Some(value);
                             }
                         } else {
                             quote! {
                                 let mut value = Vec::new();
                                 let var_bytes_read = value.decode(src)?;
-                                bytes_read += var_bytes_read;
+                                #read += var_bytes_read;
                                 self.#field_name = value;
                             }
                         }
-- 
2.43.0


From 525933b31b3e9ebea685152ed53950e9cac61cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:52 +0000
Subject: [PATCH 08/48] fix: reject packets whose body is longer than their
 content

The unused rest of the body was left in the stream and decoded as the next
packet (for example a PINGREQ with a non-zero remaining length).
---
 vaux-mqtt/src/codec/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index df90a6b..7274d9f 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -491,10 +491,16 @@ pub fn decode(src: &mut BytesMut) -> Result<Option<(Packet, usize)>, MqttCodecEr
         _ => {}
     }
     // the whole packet has arrived, anything missing in its fields will never come
-    decode_body(fixed_header, src, decode_len).map_err(|e| match e.kind {
+    let packet = decode_body(fixed_header, src, decode_len).map_err(|e| match e.kind {
         ErrorKind::InsufficientData(_, _) => MqttCodecError::new(&e.reason),
         _ => e,
-    })
+    })?;
+    if src.has_remaining() {
+        return Err(MqttCodecError::new(
+            "malformed packet: remaining length exceeds packet content",
+        ));
+    }
+    Ok(packet)
 }
 
 fn decode_body(
-- 
2.43.0


From 02ae4eede157424ccf7426fb638c1341d0f2460b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:28 +0000
Subject: [PATCH 09/48] fix: packet stream ends on a peer that closes inside a
 packet

End of file with a partial packet buffered was read again and again without
ever waiting, keeping a processor busy for as long as the task lived. The same
happened when the buffer was full at its maximum size, an initial buffer larger
than the maximum made the buffer shrink below the bytes already read, and
read_raw() split a buffer the decoder had already consumed and never advanced
the stream.
---
 vaux-async/src/stream/packet.rs | 49 ++++++++++++++-------------------
 1 file changed, 21 insertions(+), 28 deletions(-)

diff --git a/vaux-async/src/stream/packet.rs b/vaux-async/src/stream/packet.rs
index a4a2924..67ea05c 100644
--- a/vaux-async/src/stream/packet.rs
+++ b/vaux-async/src/stream/packet.rs
@@ -30,7 +30,6 @@ impl Display for Error {
 pub struct PacketStream {
     read_buffer: Vec<u8>,
     read_offset: usize,
-    initial_buffer_size: usize,
     max_buffer_size: usize,
     stream: AsyncMqttStream,
 }
@@ -41,11 +40,14 @@ impl PacketStream {
         initial_buffer_size: Option<usize>,
         max_buffer_size: Option<usize>,
     ) -> Self {
+        let max_buffer_size = max_buffer_size.unwrap_or(MAX_BUFFER_SIZE).max(1);
+        let initial_buffer_size = initial_buffer_size
+            .unwrap_or(READ_BUFFER_SIZE)
+            .clamp(1, max_buffer_size);
         Self {
-            read_buffer: vec![0; initial_buffer_size.unwrap_or(READ_BUFFER_SIZE)],
+            read_buffer: vec![0; initial_buffer_size],
             read_offset: 0,
-            initial_buffer_size: initial_buffer_size.unwrap_or(READ_BUFFER_SIZE),
-            max_buffer_size: max_buffer_size.unwrap_or(MAX_BUFFER_SIZE),
+            max_buffer_size,
             stream,
         }
     }
@@ -91,31 +93,19 @@ impl PacketStream {
         &mut self,
         with_bytes: bool,
     ) -> Result<Option<(Packet, Option<Bytes>)>, Error> {
-        let mut bytes_read = self.read_offset;
         loop {
-            if bytes_read > 0 {
-                let bytes_mut = &mut BytesMut::from(&self.read_buffer[0..bytes_read]);
+            if self.read_offset > 0 {
+                let bytes_mut = &mut BytesMut::from(&self.read_buffer[0..self.read_offset]);
                 match decode(bytes_mut) {
                     Ok(data_read) => {
                         if let Some((packet, decode_len)) = data_read {
-                            if with_bytes {
-                                // split the buffer into packet and remaining bytes
-                                let packet_bytes = bytes_mut.split_to(decode_len);
-                                // resize the buffer if less than requested initial size
-                                if self.read_buffer.len() < self.initial_buffer_size {
-                                    self.read_buffer.resize(self.initial_buffer_size, 0);
-                                }
-                                return Ok(Some((packet, Some(packet_bytes.freeze()))));
-                            } else {
-                                if decode_len < bytes_read {
-                                    self.read_buffer.copy_within(decode_len..bytes_read, 0);
-                                    // adjust offset to end of decoded bytes
-                                    self.read_offset = bytes_read - decode_len;
-                                } else {
-                                    self.read_offset = 0;
-                                }
-                                return Ok(Some((packet, None)));
-                            }
+                            let packet_bytes = with_bytes
+                                .then(|| Bytes::copy_from_slice(&self.read_buffer[..decode_len]));
+                            // keep the bytes after the packet and adjust the offset to their end
+                            self.read_buffer
+                                .copy_within(decode_len..self.read_offset, 0);
+                            self.read_offset -= decode_len;
+                            return Ok(Some((packet, packet_bytes)));
                         } else {
                             return Ok(None);
                         }
@@ -140,11 +130,14 @@ impl PacketStream {
                 .await
             {
                 Ok(len) => {
-                    if len == 0 && bytes_read == 0 {
+                    if len == 0 && self.read_offset == 0 {
                         return Ok(None);
                     }
-                    bytes_read += len;
-                    self.read_offset = bytes_read;
+                    if len == 0 {
+                        // the peer is gone, the rest of the packet will never arrive
+                        return Err(Error::Io(std::io::ErrorKind::UnexpectedEof.into()));
+                    }
+                    self.read_offset += len;
                     if self.read_offset >= self.read_buffer.len() {
                         // increase buffer size
                         // TODO add a capability to shrink the buffer if it is too large or
-- 
2.43.0


From 900f213f73e1f281b2695005b7c6624c16467871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:41 +0000
Subject: [PATCH 10/48] fix: let a packet stream read while its peer is slow to
 take what was written

write() blocks until the peer reads, and a task blocked in it neither reads
nor notices anything else: a peer that stopped reading kept its handler from
seeing takeovers, disconnects and its own keep-alive. Packets can now be queued
and are written by read() while it waits.
---
 vaux-async/src/stream/packet.rs | 85 +++++++++++++++++++++++++++------
 1 file changed, 71 insertions(+), 14 deletions(-)

diff --git a/vaux-async/src/stream/packet.rs b/vaux-async/src/stream/packet.rs
index 67ea05c..5f0f5fd 100644
--- a/vaux-async/src/stream/packet.rs
+++ b/vaux-async/src/stream/packet.rs
@@ -1,11 +1,16 @@
 use super::AsyncMqttStream;
-use bytes::{Bytes, BytesMut};
+use bytes::{Buf, Bytes, BytesMut};
 use std::fmt::Display;
-use tokio::io::{AsyncReadExt, AsyncWriteExt};
+use std::future::poll_fn;
+use std::pin::Pin;
+use std::task::{ready, Context, Poll};
+use tokio::io::{AsyncRead, AsyncWrite, AsyncWriteExt, ReadBuf};
 use vaux_mqtt::codec::{Encode, Packet, decode};
 
 const READ_BUFFER_SIZE: usize = 4096;
 const MAX_BUFFER_SIZE: usize = 4096 * 1024;
+// a peer that does not take this much is not read from until it does
+const MAX_QUEUED_WRITE: usize = 1024 * 1024;
 
 #[derive(Debug)]
 pub enum Error {
@@ -31,6 +36,8 @@ pub struct PacketStream {
     read_buffer: Vec<u8>,
     read_offset: usize,
     max_buffer_size: usize,
+    write_buffer: BytesMut,
+    needs_flush: bool,
     stream: AsyncMqttStream,
 }
 
@@ -48,6 +55,8 @@ impl PacketStream {
             read_buffer: vec![0; initial_buffer_size],
             read_offset: 0,
             max_buffer_size,
+            write_buffer: BytesMut::new(),
+            needs_flush: false,
             stream,
         }
     }
@@ -68,6 +77,7 @@ impl PacketStream {
     /// stream will be read again on the next call to this method and any bytes not
     /// decoded will be retained.
     ///
+    /// Packets queued with [`PacketStream::queue`] are written while waiting.
     ///
     pub async fn read(&mut self) -> Result<Option<Packet>, Error> {
         let result = self.read_internal(false).await;
@@ -124,11 +134,7 @@ impl PacketStream {
                     },
                 }
             }
-            match self
-                .stream
-                .read(&mut self.read_buffer[self.read_offset..])
-                .await
-            {
+            match poll_fn(|cx| self.poll_socket(cx)).await {
                 Ok(len) => {
                     if len == 0 && self.read_offset == 0 {
                         return Ok(None);
@@ -158,18 +164,69 @@ impl PacketStream {
         }
     }
 
-    pub async fn write(&mut self, packet: &mut Packet) -> Result<(), Error> {
-        let mut dest = BytesMut::default();
-        let result = packet.encode(&mut dest);
-        if let Err(e) = result {
-            return Err(Error::Codec(e));
+    /// Writes as much queued data as the peer takes, then reads into the free part of the
+    /// read buffer.
+    fn poll_socket(&mut self, cx: &mut Context<'_>) -> Poll<std::io::Result<usize>> {
+        let written = self.poll_write_queued(cx);
+        if self.write_buffer.len() >= MAX_QUEUED_WRITE && written.is_pending() {
+            return Poll::Pending;
         }
-        if let Err(e) = self.stream.write_all(&dest).await {
-            return Err(Error::Io(e));
+        let mut free = ReadBuf::new(&mut self.read_buffer[self.read_offset..]);
+        match Pin::new(&mut self.stream).poll_read(cx, &mut free) {
+            Poll::Ready(result) => result?,
+            // what the peer sent before it went away is read before a failed write is reported
+            Poll::Pending => {
+                return match written {
+                    Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
+                    _ => Poll::Pending,
+                };
+            }
+        }
+        Poll::Ready(Ok(free.filled().len()))
+    }
+
+    fn poll_write_queued(&mut self, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
+        while !self.write_buffer.is_empty() {
+            let len = ready!(Pin::new(&mut self.stream).poll_write(cx, &self.write_buffer))?;
+            if len == 0 {
+                return Poll::Ready(Err(std::io::ErrorKind::WriteZero.into()));
+            }
+            self.write_buffer.advance(len);
+            self.needs_flush = true;
         }
+        if self.needs_flush {
+            ready!(Pin::new(&mut self.stream).poll_flush(cx))?;
+            self.needs_flush = false;
+        }
+        Poll::Ready(Ok(()))
+    }
+
+    /// Queues a packet without waiting for the peer to take it. Queued packets are written in
+    /// order by the calls to `read`, `flush` and `write` that follow.
+    pub fn queue(&mut self, packet: &Packet) -> Result<(), Error> {
+        let mut dest = BytesMut::default();
+        packet.encode(&mut dest).map_err(Error::Codec)?;
+        self.write_buffer.extend_from_slice(&dest);
         Ok(())
     }
 
+    /// Returns true while queued packets have not been written completely.
+    pub fn has_queued(&self) -> bool {
+        !self.write_buffer.is_empty() || self.needs_flush
+    }
+
+    /// Writes all queued packets.
+    pub async fn flush(&mut self) -> Result<(), Error> {
+        poll_fn(|cx| self.poll_write_queued(cx))
+            .await
+            .map_err(Error::Io)
+    }
+
+    pub async fn write(&mut self, packet: &mut Packet) -> Result<(), Error> {
+        self.queue(packet)?;
+        self.flush().await
+    }
+
     pub async fn shutdown(&mut self) -> Result<(), Error> {
         if let Err(e) = self.stream.shutdown().await {
             return Err(Error::Io(e));
-- 
2.43.0


From 8e59e0f05a44ad8ada572afb4e65740688cf13b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:24 +0000
Subject: [PATCH 11/48] fix: topics starting with $ do not match filters
 starting with a wildcard

---
 vaux-broker/src/topic.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vaux-broker/src/topic.rs b/vaux-broker/src/topic.rs
index f9d4fac..2215fec 100644
--- a/vaux-broker/src/topic.rs
+++ b/vaux-broker/src/topic.rs
@@ -112,6 +112,8 @@ impl TopicTree {
         results: &mut Vec<Subscriber>,
     ) {
         let node = &self.nodes[node_idx as usize];
+        // topics starting with '$' are not matched by filters starting with a wildcard
+        let wildcards = depth > 0 || !segments[0].starts_with('$');
 
         // '#' at this level matches everything at and below
         results.extend(node.wildcard_subscribers.iter().cloned());
@@ -134,12 +136,12 @@ impl TopicTree {
         }
 
         // '+' wildcard matches any single level
-        if let Some(&plus_idx) = node.children.get("+") {
+        if let Some(&plus_idx) = node.children.get("+").filter(|_| wildcards) {
             self.collect_matches(plus_idx, segments, depth + 1, results);
         }
 
         // '#' child matches this level and everything below
-        if let Some(&hash_idx) = node.children.get("#") {
+        if let Some(&hash_idx) = node.children.get("#").filter(|_| wildcards) {
             let hash_node = &self.nodes[hash_idx as usize];
             results.extend(hash_node.wildcard_subscribers.iter().cloned());
         }
-- 
2.43.0


From e5fc7d44924f5e63a7baecc6fe2952ea03775dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:43 +0000
Subject: [PATCH 12/48] fix: a forwarded publish does not carry the publisher's
 packet id and DUP flag

A QoS 1 publish delivered at QoS 0 still carried its packet identifier, which
the subscriber reads as the start of the properties.
---
 vaux-broker/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index e5d7343..19e53cb 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -670,6 +670,10 @@ impl Broker {
 
             if let Some(target_session) = session_pool.get_active(&sub.session_id) {
                 let mut out = publish.clone();
+                // these belong to the publisher's exchange, not to this delivery
+                let _ = out.set_dup(false);
+                let _ = out.set_packet_id(None);
+                out.topic_alias = None;
                 out.set_qos(qos);
                 if qos != QoSLevel::AtMostOnce {
                     let mut target = target_session.write().await;
-- 
2.43.0


From fc5f8d003862cd43e1061ce3d3d26ba3ab0bc07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:25 +0000
Subject: [PATCH 13/48] fix: keep accepting connections after a failed accept

One failed accept call ended the accept loop, and with it the broker's listener.
---
 vaux-broker/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 19e53cb..019799e 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -28,6 +28,7 @@ use vaux_mqtt::{
 };
 
 const INIT_STREAM_BUFFER_SIZE: usize = 4096;
+const ACCEPT_RETRY_DELAY: Duration = Duration::from_millis(10);
 
 #[derive(Debug)]
 pub enum BrokerError {
@@ -187,8 +188,10 @@ impl Broker {
                                         });
                                     }
                                     Err(e) => {
+                                        // for example a connection reset before it was accepted or
+                                        // too many open files; other connections can still be served
                                         tracing::error!(error = %e, "error accepting connection");
-                                        return Err(e.into());
+                                        tokio::time::sleep(ACCEPT_RETRY_DELAY).await;
                                     }
                                 }
                             }
-- 
2.43.0


From 828db8140edc37734c6deb0485042db3c7ccbec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:22 +0000
Subject: [PATCH 14/48] fix: a session ends with its connection and only with
 its own connection

Several exits of the connection handler (failed writes, protocol errors, task
failures, a broken redelivery) left the session active for ever, with its slot
and its will; others deactivated a session that another connection had taken
over in the meantime, published its new will or changed its subscriptions. The
newcomer of a takeover waited for room in the old connection's queue while
holding the session pool, so one stalled client stopped the whole broker, and a
handler whose session was gone polled its closed queue without ever waiting.

All exits now go through end_session(), which checks that the session still
belongs to the connection; connections are told to end by a signal that needs
no room in a queue and no cooperation of the peer.
---
 vaux-broker/src/lib.rs     | 346 ++++++++++++++++++-------------------
 vaux-broker/src/session.rs |  78 +++++++--
 2 files changed, 237 insertions(+), 187 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 019799e..1e20c30 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -4,9 +4,12 @@ pub(crate) mod topic;
 
 pub use config::Config;
 use config::{BROKER_KEEP_ALIVE_FACTOR, DEFAULT_KEEP_ALIVE};
+use futures::FutureExt;
 use session::Session;
 use session::SessionControl;
+use session::SessionHandle;
 use session::SessionPool;
+use std::panic::AssertUnwindSafe;
 use std::sync::atomic::{AtomicBool, Ordering};
 use std::sync::Arc;
 use std::time::Duration;
@@ -14,7 +17,7 @@ use tokio::{
     net::TcpListener,
     select,
     sync::{mpsc::Receiver, mpsc::Sender, RwLock},
-    task::{yield_now, JoinHandle},
+    task::JoinHandle,
 };
 use topic::TopicTree;
 use uuid::Uuid;
@@ -28,6 +31,7 @@ use vaux_mqtt::{
 };
 
 const INIT_STREAM_BUFFER_SIZE: usize = 4096;
+const DISCONNECT_TIMEOUT: Duration = Duration::from_secs(1);
 const ACCEPT_RETRY_DELAY: Duration = Duration::from_millis(10);
 
 #[derive(Debug)]
@@ -208,97 +212,84 @@ impl Broker {
         stream: &mut PacketStream,
         state: BrokerState,
     ) -> Result<(), BrokerError> {
-        let mut connected = false;
-        let mut client_session: Option<Arc<RwLock<Session>>> = None;
-        let mut session_control: Option<Receiver<SessionControl>> = None;
+        let mut client: Option<SessionHandle> = None;
+        // however the connection ends, its session has to be given back
+        let result = AssertUnwindSafe(Broker::serve_client(stream, &state, &mut client))
+            .catch_unwind()
+            .await;
+        if let Some(handle) = &client {
+            Broker::end_session(handle, &state).await;
+        }
+        match result {
+            Ok(result) => result,
+            Err(panic) => std::panic::resume_unwind(panic),
+        }
+    }
+
+    async fn serve_client(
+        stream: &mut PacketStream,
+        state: &BrokerState,
+        client: &mut Option<SessionHandle>,
+    ) -> Result<(), BrokerError> {
         let mut keep_alive = DEFAULT_KEEP_ALIVE;
         loop {
             select! {
-                ctrl = Broker::handle_control(&mut session_control) => {
-                    if let Some(control) = ctrl {
-                        match control {
-                            SessionControl::Disconnect(reason) => {
-                                if let Some(session) = &client_session {
-                                    let session_id = {
-                                        let session = session.read().await;
-                                        (*session).id().to_string()
-                                    };
-                                    match reason {
-                                        Reason::SessionTakeOver => {
-                                            // the session will already be deactivated and taken over
-                                            // by another client, just send the disconnect packet
-                                        }
-                                        _ => {
-                                            state.session_pool.write().await.deactivate(&session_id).await;
-                                        }
-                                    }
-                                    stream.write(&mut Packet::Disconnect(Disconnect::new(reason))).await?;
-                                } else {
-                                    stream.shutdown().await?;
-                                    return Ok(());
-                                }
-                            }
-                            SessionControl::Deliver(publish) => {
-                                stream.write(&mut Packet::Publish(*publish)).await?;
-                            }
+                control = Broker::handle_control(client) => {
+                    match control {
+                        SessionControl::Disconnect(reason) => {
+                            return Broker::disconnect(stream, reason).await;
+                        }
+                        SessionControl::Deliver(publish) => {
+                            stream.write(&mut Packet::Publish(*publish)).await?;
                         }
                     }
                 }
                 _ = Broker::keep_alive_timer(keep_alive) => {
-                    if let Some(session) = &client_session {
-                        let session_id = session.read().await.id().to_string();
-                        tracing::info!(session_id = %session_id, "keep-alive expired");
-                        Broker::initiate_will(session, &state).await;
-                        state.session_pool.write().await.deactivate(&session_id).await;
-                    } else {
-                        stream.shutdown().await?;
-                        return Ok(());
+                    if let Some(handle) = client {
+                        tracing::info!(session_id = %handle.session_id, "keep-alive expired");
                     }
+                    return Broker::disconnect(stream, Reason::KeepAliveTimeout).await;
                 }
                 packet_result = stream.read() => {
                     match packet_result {
                         Ok(Some(packet)) => {
-                            if !connected {
-                                if let Some(session) = Broker::handle_pre_connect(packet, stream, &state).await? {
-                                    let pending = {
-                                        let mut session = session.write().await;
-                                        keep_alive = session.keep_alive();
-                                        session_control = session.take_control_receiver();
-                                        session.drain_pending()
-                                    };
-                                    for (packet_id, mut publish) in pending {
-                                        publish.set_dup(true).ok();
-                                        let _ = publish.set_packet_id(Some(packet_id));
-                                        {
-                                            let mut s = session.write().await;
-                                            s.track_qos_publish(packet_id, publish.clone());
-                                        }
-                                        stream.write(&mut Packet::Publish(publish)).await?;
-                                    }
-                                    client_session = Some(Arc::clone(&session));
-                                } else {
+                            if let Some(handle) = client {
+                                if Broker::handle_packet(packet, stream, handle, state).await? {
                                     continue;
                                 }
-                                connected = true;
-                            } else if let Some(session) = &client_session {
-                                Broker::handle_packet(packet, stream, Arc::clone(session), &state).await?;
+                                stream.shutdown().await?;
+                                return Ok(());
+                            }
+                            if !Broker::handle_pre_connect(packet, stream, state, client).await? {
+                                stream.shutdown().await?;
+                                return Ok(());
+                            }
+                            if let Some(handle) = client {
+                                let pending = {
+                                    let mut session = handle.session.write().await;
+                                    keep_alive = session.keep_alive();
+                                    session.drain_pending()
+                                };
+                                for (packet_id, mut publish) in pending {
+                                    publish.set_dup(true).ok();
+                                    let _ = publish.set_packet_id(Some(packet_id));
+                                    {
+                                        let mut s = handle.session.write().await;
+                                        s.track_qos_publish(packet_id, publish.clone());
+                                    }
+                                    stream.write(&mut Packet::Publish(publish)).await?;
+                                }
                             }
                         }
                         Ok(None) => {
-                            if let Some(session) = &client_session {
-                                let session_id = session.read().await.id().to_string();
-                                tracing::info!(session_id = %session_id, "connection closed");
-                                Broker::initiate_will(session, &state).await;
-                                state.session_pool.write().await.deactivate(&session_id).await;
+                            if let Some(handle) = client {
+                                tracing::info!(session_id = %handle.session_id, "connection closed");
                             }
                             return Ok(());
                         }
                         Err(e) => {
-                            if let Some(session) = &client_session {
-                                let session_id = session.read().await.id().to_string();
-                                tracing::warn!(session_id = %session_id, error = %e, "connection error");
-                                Broker::initiate_will(session, &state).await;
-                                state.session_pool.write().await.deactivate(&session_id).await;
+                            if let Some(handle) = client {
+                                tracing::warn!(session_id = %handle.session_id, error = %e, "connection error");
                             }
                             return Err(e.into());
                         }
@@ -308,41 +299,70 @@ impl Broker {
         }
     }
 
+    /// Tells the client why its connection ends and closes it, without waiting for a client
+    /// that does not read.
+    async fn disconnect(stream: &mut PacketStream, reason: Reason) -> Result<(), BrokerError> {
+        stream.queue(&Packet::Disconnect(Disconnect::new(reason)))?;
+        if let Ok(result) = tokio::time::timeout(DISCONNECT_TIMEOUT, stream.flush()).await {
+            result?;
+            stream.shutdown().await?;
+        }
+        Ok(())
+    }
+
+    /// Gives the session back at the end of its connection, unless another connection has taken
+    /// it over, and publishes its will.
+    async fn end_session(handle: &SessionHandle, state: &BrokerState) {
+        let mut session_pool = state.session_pool.write().await;
+        {
+            let session = handle.session.read().await;
+            if !session.is_attached(handle) {
+                return;
+            }
+        }
+        let will = Broker::initiate_will(&handle.session, state).await;
+        session_pool.deactivate(&handle.session_id).await;
+        drop(session_pool);
+        if let Some(will) = will {
+            Broker::publish_will(&will, state).await;
+        }
+    }
+
+    /// Handles a packet of a connected client. Returns false if the connection has to end.
     async fn handle_packet(
         packet: Packet,
         stream: &mut PacketStream,
-        session: Arc<RwLock<Session>>,
+        handle: &SessionHandle,
         state: &BrokerState,
-    ) -> Result<(), BrokerError> {
+    ) -> Result<bool, BrokerError> {
         match packet {
             Packet::PingRequest(_p) => {
                 let mut packet = PingResponse(PingResp::default());
                 stream.write(&mut packet).await?;
-                Ok(())
+                Ok(true)
             }
             Packet::Subscribe(subscribe) => {
-                let session_id = {
-                    let session = session.read().await;
-                    session.id().to_string()
-                };
-                let suback = Broker::handle_subscribe(&subscribe, &session_id, state).await;
+                let session = handle.session.read().await;
+                if !session.is_attached(handle) {
+                    return Ok(true);
+                }
+                let suback = Broker::handle_subscribe(&subscribe, &handle.session_id, state).await;
+                drop(session);
                 stream.write(&mut Packet::SubAck(suback)).await?;
-                Ok(())
+                Ok(true)
             }
             Packet::Unsubscribe(unsubscribe) => {
-                let session_id = {
-                    let session = session.read().await;
-                    session.id().to_string()
-                };
-                let unsuback = Broker::handle_unsubscribe(&unsubscribe, &session_id, state).await;
+                let session = handle.session.read().await;
+                if !session.is_attached(handle) {
+                    return Ok(true);
+                }
+                let unsuback =
+                    Broker::handle_unsubscribe(&unsubscribe, &handle.session_id, state).await;
+                drop(session);
                 stream.write(&mut Packet::UnsubAck(unsuback)).await?;
-                Ok(())
+                Ok(true)
             }
             Packet::Publish(publish) => {
-                let session_id = {
-                    let session = session.read().await;
-                    session.id().to_string()
-                };
                 if publish.qos() == QoSLevel::AtLeastOnce {
                     match publish.packet_id() {
                         Some(packet_id) => {
@@ -358,34 +378,26 @@ impl Broker {
                         }
                     }
                 }
-                Broker::route_publish(&publish, &session_id, state).await;
-                Ok(())
+                Broker::route_publish(&publish, &handle.session_id, state).await;
+                Ok(true)
             }
             Packet::PubAck(puback) => {
-                let mut session = session.write().await;
-                session.acknowledge(puback.packet_id);
-                Ok(())
+                let mut session = handle.session.write().await;
+                if session.is_attached(handle) {
+                    session.acknowledge(puback.packet_id);
+                }
+                Ok(true)
             }
             Packet::Disconnect(packet) => {
                 if let Reason::Success = packet.reason {
-                    let mut session = session.write().await;
-                    session.clear_will();
-                } else {
-                    Broker::initiate_will(&session, state).await;
+                    let mut session = handle.session.write().await;
+                    if session.is_attached(handle) {
+                        session.clear_will();
+                    }
                 }
-                let session_id = {
-                    let session = session.read().await;
-                    (*session).id().to_string()
-                };
-                state
-                    .session_pool
-                    .write()
-                    .await
-                    .deactivate(&session_id)
-                    .await;
-                Ok(())
+                Ok(false)
             }
-            _ => Ok(()),
+            _ => Ok(true),
         }
     }
 
@@ -428,24 +440,20 @@ impl Broker {
         unsuback
     }
 
-    async fn handle_control(
-        control_channel: &mut Option<Receiver<SessionControl>>,
-    ) -> Option<SessionControl> {
-        loop {
-            if let Some(rx) = control_channel {
-                if let Some(control) = rx.recv().await {
-                    return Some(control);
-                }
-            }
-            yield_now().await;
+    async fn handle_control(client: &mut Option<SessionHandle>) -> SessionControl {
+        match client {
+            Some(handle) => handle.next_control().await,
+            None => std::future::pending().await,
         }
     }
 
+    /// Handles the first packet of a connection. Returns false if the connection has to end.
     async fn handle_pre_connect(
         packet: Packet,
         stream: &mut PacketStream,
         state: &BrokerState,
-    ) -> Result<Option<Arc<RwLock<Session>>>, BrokerError> {
+        client: &mut Option<SessionHandle>,
+    ) -> Result<bool, BrokerError> {
         match packet {
             Packet::Connect(packet) => {
                 if !state.accepting_connections() {
@@ -453,21 +461,20 @@ impl Broker {
                     let mut ack = ConnAck::default();
                     ack.reason = Reason::ServerBusy;
                     stream.write(&mut Packet::ConnAck(ack)).await?;
-                    stream.shutdown().await?;
-                    return Ok(None);
+                    return Ok(false);
                 }
-                Broker::handle_connect(*packet, stream, state).await
+                Broker::handle_connect(*packet, stream, state, client).await
             }
             Packet::PingRequest(_packet) => {
                 let mut packet = PingResponse(PingResp::default());
                 stream.write(&mut packet).await?;
-                Ok(None)
+                Ok(true)
             }
             _ => {
                 let header = Disconnect::new(Reason::ProtocolErr);
                 let mut packet = Packet::Disconnect(header);
                 stream.write(&mut packet).await?;
-                Ok(None)
+                Ok(true)
             }
         }
     }
@@ -476,7 +483,8 @@ impl Broker {
         connect: Connect,
         stream: &mut PacketStream,
         state: &BrokerState,
-    ) -> Result<Option<Arc<RwLock<Session>>>, BrokerError> {
+        client: &mut Option<SessionHandle>,
+    ) -> Result<bool, BrokerError> {
         let session_id: String;
         let mut ack = ConnAck::default();
         let (default_keep_alive_secs, max_keep_alive_secs) = {
@@ -532,16 +540,12 @@ impl Broker {
             tracing::info!(session_id = %session_id, "connection rejected: max active sessions reached");
             ack.reason = Reason::QuotaExceeded;
             stream.write(&mut Packet::ConnAck(ack)).await?;
-            stream.shutdown().await?;
-            return Ok(None);
+            return Ok(false);
         }
 
         let session: Arc<RwLock<Session>> = if connect.clean_start() {
             if let Some(existing_session) = session_pool.remove(session_id.as_str()) {
-                let connected = { existing_session.read().await.connected() };
-                if connected {
-                    let _ = Broker::handle_takeover(Arc::clone(&existing_session)).await;
-                }
+                existing_session.write().await.take_over();
             }
             let mut new_session =
                 Session::new(session_id.clone(), connect.will_message(), keep_alive, channel_size);
@@ -561,8 +565,8 @@ impl Broker {
                 session
             } else if let Some(session) = session_pool.get_active(&session_id) {
                 {
-                    let _ = Broker::handle_takeover(Arc::clone(&session)).await;
                     let mut session = session.write().await;
+                    session.take_over();
                     ack.set_session_present(true);
                     session.cancel_pending_will();
                     session.set_will(connect.will_message());
@@ -583,60 +587,50 @@ impl Broker {
                 new_session
             }
         };
-        drop(session_pool);
         {
             let mut session = session.write().await;
             if let Some(expiry) = session_expiry {
                 session.set_session_expiry(expiry);
             }
         }
+        // from here on the session ends with this connection, even if the CONNACK fails
+        *client = SessionHandle::attach(&session).await;
+        drop(session_pool);
         tracing::info!(session_id = %session_id, "client connected");
         stream.write(&mut Packet::ConnAck(ack)).await?;
-        Ok(Some(Arc::clone(&session)))
+        Ok(true)
     }
 
     async fn keep_alive_timer(keep_alive: Duration) {
         tokio::time::sleep(keep_alive).await;
     }
 
-    async fn handle_takeover(session: Arc<RwLock<Session>>) -> Result<(), BrokerError> {
-        session
-            .read()
-            .await
-            .disconnect(Reason::SessionTakeOver)
-            .await;
-        // TODO wait for disconnect to complete from session state
-        tokio::time::sleep(Duration::from_millis(500)).await;
-        Ok(())
-    }
-
-    async fn initiate_will(session: &Arc<RwLock<Session>>, state: &BrokerState) {
-        let will = {
-            let mut session = session.write().await;
-            session.take_will()
-        };
-
-        if let Some(will) = will {
-            tracing::debug!(topic = %will.topic, "publishing will message");
-            let delay_secs = will.header.will_delay.unwrap_or(0);
-            if delay_secs == 0 {
-                Broker::publish_will(&will, state).await;
-            } else {
-                let token = tokio_util::sync::CancellationToken::new();
-                let child_token = token.child_token();
-                let state = state.clone();
-                tokio::spawn(async move {
-                    tokio::select! {
-                        _ = tokio::time::sleep(Duration::from_secs(delay_secs as u64)) => {
-                            Broker::publish_will(&will, &state).await;
-                        }
-                        _ = child_token.cancelled() => {}
-                    }
-                });
-                let mut session = session.write().await;
-                session.set_pending_will(token);
-            }
+    /// Takes the will out of a session that has ended. A will that is due at once is returned,
+    /// a delayed will is published later unless the session is resumed before.
+    async fn initiate_will(
+        session: &Arc<RwLock<Session>>,
+        state: &BrokerState,
+    ) -> Option<WillMessage> {
+        let mut session = session.write().await;
+        let will = session.take_will()?;
+        tracing::debug!(topic = %will.topic, "publishing will message");
+        let delay_secs = will.header.will_delay.unwrap_or(0);
+        if delay_secs == 0 {
+            return Some(will);
         }
+        let token = tokio_util::sync::CancellationToken::new();
+        let child_token = token.child_token();
+        let state = state.clone();
+        tokio::spawn(async move {
+            tokio::select! {
+                _ = tokio::time::sleep(Duration::from_secs(delay_secs as u64)) => {
+                    Broker::publish_will(&will, &state).await;
+                }
+                _ = child_token.cancelled() => {}
+            }
+        });
+        session.set_pending_will(token);
+        None
     }
 
     async fn publish_will(will: &WillMessage, state: &BrokerState) {
@@ -689,7 +683,7 @@ impl Broker {
                             topic = %publish.topic_name,
                             "slow subscriber: channel full, disconnecting"
                         );
-                        let _ = target.try_send_control(SessionControl::Disconnect(Reason::QuotaExceeded));
+                        target.kick(Reason::QuotaExceeded);
                     }
                 } else {
                     let target = target_session.read().await;
@@ -699,7 +693,7 @@ impl Broker {
                             topic = %publish.topic_name,
                             "slow subscriber: channel full, disconnecting"
                         );
-                        let _ = target.try_send_control(SessionControl::Disconnect(Reason::QuotaExceeded));
+                        target.kick(Reason::QuotaExceeded);
                     }
                 }
             }
diff --git a/vaux-broker/src/session.rs b/vaux-broker/src/session.rs
index 91e8f18..495c83e 100644
--- a/vaux-broker/src/session.rs
+++ b/vaux-broker/src/session.rs
@@ -6,6 +6,7 @@ use std::{
 use tokio::sync::{
     RwLock,
     mpsc::{self, Receiver, Sender},
+    watch,
 };
 use tokio_util::sync::CancellationToken;
 use vaux_mqtt::{Publish, Reason, WillMessage};
@@ -180,6 +181,45 @@ pub(crate) enum SessionControl {
     Deliver(Box<vaux_mqtt::Publish>),
 }
 
+/// A session as seen by one of its connections. The session moves on to another connection
+/// when it is taken over, the connection that lost it must not touch it from then on.
+#[derive(Debug)]
+pub(crate) struct SessionHandle {
+    pub session: Arc<RwLock<Session>>,
+    pub session_id: String,
+    pub control: Receiver<SessionControl>,
+    epoch: u64,
+    kick: watch::Receiver<Option<Reason>>,
+}
+
+impl SessionHandle {
+    /// Attaches the calling connection to the session.
+    pub async fn attach(session: &Arc<RwLock<Session>>) -> Option<Self> {
+        let mut guard = session.write().await;
+        let control = guard.take_control_receiver()?;
+        Some(SessionHandle {
+            session: Arc::clone(session),
+            session_id: guard.id().to_string(),
+            control,
+            epoch: guard.epoch,
+            kick: guard.kick.subscribe(),
+        })
+    }
+
+    /// Waits for something to do for the connection. Once it has been told to end it is given
+    /// nothing else to do.
+    pub async fn next_control(&mut self) -> SessionControl {
+        tokio::select! {
+            biased;
+            kick = self.kick.wait_for(|reason| reason.is_some()) => {
+                let reason = kick.ok().and_then(|reason| *reason);
+                SessionControl::Disconnect(reason.unwrap_or(Reason::SessionTakeOver))
+            }
+            Some(control) = self.control.recv() => control,
+        }
+    }
+}
+
 #[derive(Debug)]
 pub struct Session {
     id: String,
@@ -192,6 +232,8 @@ pub struct Session {
     next_packet_id: u16,
     pending_ack: HashMap<u16, Publish>,
     control: (Sender<SessionControl>, Option<Receiver<SessionControl>>),
+    epoch: u64,
+    kick: watch::Sender<Option<Reason>>,
 }
 
 impl Session {
@@ -214,31 +256,45 @@ impl Session {
             next_packet_id: 1,
             pending_ack: HashMap::new(),
             control: (sender, Some(receiver)),
+            epoch: 0,
+            kick: watch::Sender::new(None),
         }
     }
 
     pub fn reset_control(&mut self, channel_size: usize) {
         let (sender, receiver) = mpsc::channel(channel_size);
         self.control = (sender, Some(receiver));
+        self.kick = watch::Sender::new(None);
     }
 
-    pub fn control_sender(&self) -> Sender<SessionControl> {
-        self.control.0.clone()
+    /// Takes the session away from its connection, which is told to end.
+    pub(crate) fn take_over(&mut self) {
+        self.epoch += 1;
+        self.kick(Reason::SessionTakeOver);
     }
 
-    pub fn take_control_receiver(&mut self) -> Option<Receiver<SessionControl>> {
-        self.control.1.take()
+    /// Tells the connection to end. Does not wait for it, nor for its peer.
+    pub(crate) fn kick(&self, reason: Reason) {
+        self.kick.send_if_modified(|kick| {
+            let first = kick.is_none();
+            if first {
+                *kick = Some(reason);
+            }
+            first
+        });
     }
 
-    pub async fn disconnect(&self, reason: Reason) {
-        let _ = self.send_control(SessionControl::Disconnect(reason)).await;
+    /// Returns true while the session belongs to the connection of the handle.
+    pub(crate) fn is_attached(&self, handle: &SessionHandle) -> bool {
+        self.epoch == handle.epoch
     }
 
-    pub async fn send_control(
-        &self,
-        msg: SessionControl,
-    ) -> Result<(), tokio::sync::mpsc::error::SendError<SessionControl>> {
-        self.control.0.send(msg).await
+    pub fn control_sender(&self) -> Sender<SessionControl> {
+        self.control.0.clone()
+    }
+
+    pub fn take_control_receiver(&mut self) -> Option<Receiver<SessionControl>> {
+        self.control.1.take()
     }
 
     pub fn try_send_control(
-- 
2.43.0


From 73c805a989edce842b1a48b45d216da15f4a062a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:41 +0000
Subject: [PATCH 15/48] fix: keep-alive counts from the last packet received

Every packet sent to the client restarted the timer, so a dead client was kept
for as long as somebody published to it. Fractions of a second of one and a
half times the keep-alive were cut off, disconnecting clients early, and a
resumed session kept the keep-alive of its first connection.
---
 vaux-broker/src/lib.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 1e20c30..9ca2eac 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -18,6 +18,7 @@ use tokio::{
     select,
     sync::{mpsc::Receiver, mpsc::Sender, RwLock},
     task::JoinHandle,
+    time::Instant,
 };
 use topic::TopicTree;
 use uuid::Uuid;
@@ -232,6 +233,7 @@ impl Broker {
         client: &mut Option<SessionHandle>,
     ) -> Result<(), BrokerError> {
         let mut keep_alive = DEFAULT_KEEP_ALIVE;
+        let mut last_packet = Instant::now();
         loop {
             select! {
                 control = Broker::handle_control(client) => {
@@ -244,7 +246,7 @@ impl Broker {
                         }
                     }
                 }
-                _ = Broker::keep_alive_timer(keep_alive) => {
+                _ = Broker::keep_alive_timer(last_packet, keep_alive) => {
                     if let Some(handle) = client {
                         tracing::info!(session_id = %handle.session_id, "keep-alive expired");
                     }
@@ -253,6 +255,7 @@ impl Broker {
                 packet_result = stream.read() => {
                     match packet_result {
                         Ok(Some(packet)) => {
+                            last_packet = Instant::now();
                             if let Some(handle) = client {
                                 if Broker::handle_packet(packet, stream, handle, state).await? {
                                     continue;
@@ -497,12 +500,12 @@ impl Broker {
         // handle keep alive request
         let keep_alive = if connect.keep_alive < default_keep_alive_secs {
             ack.set_server_keep_alive(default_keep_alive_secs);
-            Duration::from_secs((default_keep_alive_secs as f32 * BROKER_KEEP_ALIVE_FACTOR) as u64)
+            Duration::from_secs(default_keep_alive_secs as u64).mul_f32(BROKER_KEEP_ALIVE_FACTOR)
         } else if connect.keep_alive > max_keep_alive_secs {
             ack.set_server_keep_alive(max_keep_alive_secs);
-            Duration::from_secs((max_keep_alive_secs as f32 * BROKER_KEEP_ALIVE_FACTOR) as u64)
+            Duration::from_secs(max_keep_alive_secs as u64).mul_f32(BROKER_KEEP_ALIVE_FACTOR)
         } else {
-            Duration::from_secs((connect.keep_alive as f32 * BROKER_KEEP_ALIVE_FACTOR) as u64)
+            Duration::from_secs(connect.keep_alive as u64).mul_f32(BROKER_KEEP_ALIVE_FACTOR)
         };
         // handle the session expiry request
         let session_expiry = if let Some(requested_expiry) = connect.session_expiry_interval {
@@ -560,6 +563,7 @@ impl Broker {
                     ack.set_session_present(true);
                     session.cancel_pending_will();
                     session.set_will(connect.will_message());
+                    session.set_keep_alive(keep_alive);
                     session.reset_control(channel_size);
                 }
                 session
@@ -570,6 +574,7 @@ impl Broker {
                     ack.set_session_present(true);
                     session.cancel_pending_will();
                     session.set_will(connect.will_message());
+                    session.set_keep_alive(keep_alive);
                     session.reset_control(channel_size);
                     session.set_last_active();
                 }
@@ -601,8 +606,8 @@ impl Broker {
         Ok(true)
     }
 
-    async fn keep_alive_timer(keep_alive: Duration) {
-        tokio::time::sleep(keep_alive).await;
+    async fn keep_alive_timer(last_packet: Instant, keep_alive: Duration) {
+        tokio::time::sleep_until(last_packet + keep_alive).await;
     }
 
     /// Takes the will out of a session that has ended. A will that is due at once is returned,
-- 
2.43.0


From 301ee63f147f88b8fe53be1be0f8461774d8b6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:00 +0000
Subject: [PATCH 16/48] fix: close connections that break the order of CONNECT

A connection whose first packet is not a CONNECT was told so but served on,
PINGREQ before CONNECT was answered, and a second CONNECT was ignored.
---
 vaux-broker/src/lib.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 9ca2eac..15d08d5 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -400,6 +400,12 @@ impl Broker {
                 }
                 Ok(false)
             }
+            Packet::Connect(_) => {
+                // MQTT 3.1.0: a second CONNECT is a protocol error
+                let disconnect = Disconnect::new(Reason::ProtocolErr);
+                stream.write(&mut Packet::Disconnect(disconnect)).await?;
+                Ok(false)
+            }
             _ => Ok(true),
         }
     }
@@ -468,16 +474,11 @@ impl Broker {
                 }
                 Broker::handle_connect(*packet, stream, state, client).await
             }
-            Packet::PingRequest(_packet) => {
-                let mut packet = PingResponse(PingResp::default());
-                stream.write(&mut packet).await?;
-                Ok(true)
-            }
             _ => {
                 let header = Disconnect::new(Reason::ProtocolErr);
                 let mut packet = Packet::Disconnect(header);
                 stream.write(&mut packet).await?;
-                Ok(true)
+                Ok(false)
             }
         }
     }
-- 
2.43.0


From 58f683999b1db0fae366772d8fc26f1ad5170549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:07 +0000
Subject: [PATCH 17/48] fix: discard sessions on clean start, at their expiry
 and when they have none

Clean start kept the subscriptions of the discarded session, expired sessions
were resumed as if they had not, sessions without an expiry interval were kept
for ever, the interval was counted from the last connect instead of the end of
the connection, and a resumed session kept the interval of an earlier CONNECT.
---
 vaux-broker/src/lib.rs     | 13 ++++++++++---
 vaux-broker/src/session.rs | 14 ++++++++++++++
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 15d08d5..be182f2 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -325,6 +325,11 @@ impl Broker {
         }
         let will = Broker::initiate_will(&handle.session, state).await;
         session_pool.deactivate(&handle.session_id).await;
+        if handle.session.read().await.session_expiry().is_none() {
+            // the session ends with its connection
+            session_pool.remove(&handle.session_id);
+            state.topic_tree.write().await.unsubscribe_all(&handle.session_id);
+        }
         drop(session_pool);
         if let Some(will) = will {
             Broker::publish_will(&will, state).await;
@@ -551,6 +556,7 @@ impl Broker {
             if let Some(existing_session) = session_pool.remove(session_id.as_str()) {
                 existing_session.write().await.take_over();
             }
+            state.topic_tree.write().await.unsubscribe_all(&session_id);
             let mut new_session =
                 Session::new(session_id.clone(), connect.will_message(), keep_alive, channel_size);
             new_session.set_connected(true);
@@ -558,6 +564,9 @@ impl Broker {
             session_pool.add(Arc::clone(&new_session)).await;
             new_session
         } else {
+            if session_pool.remove_expired(&session_id).await {
+                state.topic_tree.write().await.unsubscribe_all(&session_id);
+            }
             if let Some(session) = session_pool.activate(&session_id).await {
                 {
                     let mut session = session.write().await;
@@ -595,9 +604,7 @@ impl Broker {
         };
         {
             let mut session = session.write().await;
-            if let Some(expiry) = session_expiry {
-                session.set_session_expiry(expiry);
-            }
+            session.session_expiry = session_expiry;
         }
         // from here on the session ends with this connection, even if the CONNACK fails
         *client = SessionHandle::attach(&session).await;
diff --git a/vaux-broker/src/session.rs b/vaux-broker/src/session.rs
index 495c83e..f47c94f 100644
--- a/vaux-broker/src/session.rs
+++ b/vaux-broker/src/session.rs
@@ -127,6 +127,19 @@ impl SessionPool {
         }
     }
 
+    /// Removes an inactive session whose expiry interval has passed. Returns true if there was
+    /// one.
+    pub async fn remove_expired(&mut self, session_id: &str) -> bool {
+        let expired = match self.inactive.get(session_id) {
+            Some(session) => session.read().await.expired(),
+            None => false,
+        };
+        if expired {
+            self.remove(session_id);
+        }
+        expired
+    }
+
     /// Retreives and activates a session if the inactive session pool contains the session.
     /// The session is removed from the inactive pool and added to the active pool. The active
     /// session count is incremented and the inactive session count is decremented.  If the
@@ -163,6 +176,7 @@ impl SessionPool {
             {
                 let mut session = session_guard.write().await;
                 session.set_connected(false);
+                session.set_last_active();
                 session_id = session.id().to_string();
             }
             self.inactive_sessions += 1;
-- 
2.43.0


From 591d93091326680dcb079051619453692f4b8deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:49 +0000
Subject: [PATCH 18/48] fix: redeliver unacknowledged messages in order and
 keep their packet ids

The pending messages were taken out of the session before their redelivery, so
a connection that failed part-way lost them, they were sent in hash order, a
message acknowledged in the meantime was sent again, and packet ids still
waiting for a PUBACK were given to new messages once the counter wrapped.
---
 vaux-broker/src/lib.rs     | 25 ++++++-------
 vaux-broker/src/session.rs | 73 +++++++++++++++++++++++++++++++-------
 2 files changed, 71 insertions(+), 27 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index be182f2..5121949 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -268,20 +268,7 @@ impl Broker {
                                 return Ok(());
                             }
                             if let Some(handle) = client {
-                                let pending = {
-                                    let mut session = handle.session.write().await;
-                                    keep_alive = session.keep_alive();
-                                    session.drain_pending()
-                                };
-                                for (packet_id, mut publish) in pending {
-                                    publish.set_dup(true).ok();
-                                    let _ = publish.set_packet_id(Some(packet_id));
-                                    {
-                                        let mut s = handle.session.write().await;
-                                        s.track_qos_publish(packet_id, publish.clone());
-                                    }
-                                    stream.write(&mut Packet::Publish(publish)).await?;
-                                }
+                                keep_alive = handle.session.read().await.keep_alive();
                             }
                         }
                         Ok(None) => {
@@ -687,7 +674,15 @@ impl Broker {
                 out.set_qos(qos);
                 if qos != QoSLevel::AtMostOnce {
                     let mut target = target_session.write().await;
-                    let packet_id = target.next_packet_id();
+                    let Some(packet_id) = target.next_packet_id() else {
+                        tracing::warn!(
+                            session_id = %sub.session_id,
+                            topic = %publish.topic_name,
+                            "slow subscriber: no free packet id, disconnecting"
+                        );
+                        target.kick(Reason::QuotaExceeded);
+                        continue;
+                    };
                     let _ = out.set_packet_id(Some(packet_id));
                     target.track_qos_publish(packet_id, out.clone());
                     if let Err(_) = target.try_send_control(SessionControl::Deliver(Box::new(out))) {
diff --git a/vaux-broker/src/session.rs b/vaux-broker/src/session.rs
index f47c94f..1d000ad 100644
--- a/vaux-broker/src/session.rs
+++ b/vaux-broker/src/session.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::HashMap,
+    collections::{HashMap, VecDeque},
     sync::Arc,
     time::{Duration, Instant},
 };
@@ -201,7 +201,8 @@ pub(crate) enum SessionControl {
 pub(crate) struct SessionHandle {
     pub session: Arc<RwLock<Session>>,
     pub session_id: String,
-    pub control: Receiver<SessionControl>,
+    control: Receiver<SessionControl>,
+    redeliver: VecDeque<(u64, u16)>,
     epoch: u64,
     kick: watch::Receiver<Option<Reason>>,
 }
@@ -215,6 +216,8 @@ impl SessionHandle {
             session: Arc::clone(session),
             session_id: guard.id().to_string(),
             control,
+            // deliveries from here on go through the control channel
+            redeliver: guard.unacknowledged(),
             epoch: guard.epoch,
             kick: guard.kick.subscribe(),
         })
@@ -229,9 +232,29 @@ impl SessionHandle {
                 let reason = kick.ok().and_then(|reason| *reason);
                 SessionControl::Disconnect(reason.unwrap_or(Reason::SessionTakeOver))
             }
+            Some(publish) = Self::redelivery(&self.session, &mut self.redeliver) => {
+                SessionControl::Deliver(Box::new(publish))
+            }
             Some(control) = self.control.recv() => control,
         }
     }
+
+    async fn redelivery(
+        session: &RwLock<Session>,
+        redeliver: &mut VecDeque<(u64, u16)>,
+    ) -> Option<Publish> {
+        if redeliver.is_empty() {
+            return None;
+        }
+        let session = session.read().await;
+        while let Some((delivery, packet_id)) = redeliver.pop_front() {
+            if let Some(mut publish) = session.pending_delivery(delivery, packet_id) {
+                let _ = publish.set_dup(true);
+                return Some(publish);
+            }
+        }
+        None
+    }
 }
 
 #[derive(Debug)]
@@ -244,7 +267,9 @@ pub struct Session {
     will_message: Option<WillMessage>,
     pending_will: Option<CancellationToken>,
     next_packet_id: u16,
-    pending_ack: HashMap<u16, Publish>,
+    // deliveries waiting for their PUBACK by packet id, with their place in the delivery order
+    pending_ack: HashMap<u16, (u64, Publish)>,
+    next_delivery: u64,
     control: (Sender<SessionControl>, Option<Receiver<SessionControl>>),
     epoch: u64,
     kick: watch::Sender<Option<Reason>>,
@@ -269,6 +294,7 @@ impl Session {
             pending_will: None,
             next_packet_id: 1,
             pending_ack: HashMap::new(),
+            next_delivery: 0,
             control: (sender, Some(receiver)),
             epoch: 0,
             kick: watch::Sender::new(None),
@@ -344,17 +370,26 @@ impl Session {
         }
     }
 
-    pub fn next_packet_id(&mut self) -> u16 {
-        let id = self.next_packet_id;
-        self.next_packet_id = self.next_packet_id.wrapping_add(1);
-        if self.next_packet_id == 0 {
-            self.next_packet_id = 1;
+    /// Returns the next packet id that is not waiting for a PUBACK, or None if all of them are.
+    pub fn next_packet_id(&mut self) -> Option<u16> {
+        if self.pending_ack.len() >= u16::MAX as usize {
+            return None;
+        }
+        loop {
+            let id = self.next_packet_id;
+            self.next_packet_id = self.next_packet_id.wrapping_add(1);
+            if self.next_packet_id == 0 {
+                self.next_packet_id = 1;
+            }
+            if !self.pending_ack.contains_key(&id) {
+                return Some(id);
+            }
         }
-        id
     }
 
     pub fn track_qos_publish(&mut self, packet_id: u16, publish: Publish) {
-        self.pending_ack.insert(packet_id, publish);
+        self.pending_ack.insert(packet_id, (self.next_delivery, publish));
+        self.next_delivery += 1;
     }
 
     pub fn acknowledge(&mut self, packet_id: u16) -> bool {
@@ -365,8 +400,22 @@ impl Session {
         self.pending_ack.len()
     }
 
-    pub fn drain_pending(&mut self) -> Vec<(u16, Publish)> {
-        self.pending_ack.drain().collect()
+    /// The deliveries that still wait for their PUBACK, in the order of delivery.
+    fn unacknowledged(&self) -> VecDeque<(u64, u16)> {
+        let mut pending: Vec<_> = self
+            .pending_ack
+            .iter()
+            .map(|(packet_id, (delivery, _))| (*delivery, *packet_id))
+            .collect();
+        pending.sort_unstable();
+        pending.into()
+    }
+
+    fn pending_delivery(&self, delivery: u64, packet_id: u16) -> Option<Publish> {
+        match self.pending_ack.get(&packet_id) {
+            Some((pending, publish)) if *pending == delivery => Some(publish.clone()),
+            _ => None,
+        }
     }
 
     pub fn id(&self) -> &str {
-- 
2.43.0


From 52427d80321107d1cf885b0cf8b564c0411073b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:11 +0000
Subject: [PATCH 19/48] fix: a client that does not read does not hold its
 connection

---
 vaux-async/src/stream/mod.rs    |  2 +-
 vaux-async/src/stream/packet.rs | 49 +++++++++++++++++++++-----
 vaux-broker/src/lib.rs          | 62 ++++++++++++++++++---------------
 vaux-broker/src/session.rs      |  8 ++---
 4 files changed, 80 insertions(+), 41 deletions(-)

diff --git a/vaux-async/src/stream/mod.rs b/vaux-async/src/stream/mod.rs
index 271a3da..3f966ec 100644
--- a/vaux-async/src/stream/mod.rs
+++ b/vaux-async/src/stream/mod.rs
@@ -1,6 +1,6 @@
 pub mod packet;
 
-pub use packet::{Error, PacketStream};
+pub use packet::{Error, PacketStream, Received};
 
 use std::pin::Pin;
 use tokio::io::{AsyncRead, AsyncWrite};
diff --git a/vaux-async/src/stream/packet.rs b/vaux-async/src/stream/packet.rs
index 5f0f5fd..5508717 100644
--- a/vaux-async/src/stream/packet.rs
+++ b/vaux-async/src/stream/packet.rs
@@ -31,6 +31,17 @@ impl Display for Error {
     }
 }
 
+/// What [`PacketStream::read_or_written`] returns.
+#[derive(Debug)]
+pub enum Received {
+    /// A packet, with its bytes if they were asked for.
+    Packet(Packet, Option<Bytes>),
+    /// All queued packets have been written.
+    Written,
+    /// The peer has closed the stream.
+    Closed,
+}
+
 #[derive(Debug)]
 pub struct PacketStream {
     read_buffer: Vec<u8>,
@@ -99,10 +110,26 @@ impl PacketStream {
         }
     }
 
+    /// Reads the next packet like [`PacketStream::read`], but also returns, with
+    /// [`Received::Written`], when the packets that were queued have been written.
+    ///
+    /// Cancel safe, like [`PacketStream::read`].
+    pub async fn read_or_written(&mut self) -> Result<Received, Error> {
+        let until_written = self.has_queued();
+        self.receive(until_written, false).await
+    }
+
     async fn read_internal(
         &mut self,
         with_bytes: bool,
     ) -> Result<Option<(Packet, Option<Bytes>)>, Error> {
+        match self.receive(false, with_bytes).await? {
+            Received::Packet(packet, bytes) => Ok(Some((packet, bytes))),
+            _ => Ok(None),
+        }
+    }
+
+    async fn receive(&mut self, until_written: bool, with_bytes: bool) -> Result<Received, Error> {
         loop {
             if self.read_offset > 0 {
                 let bytes_mut = &mut BytesMut::from(&self.read_buffer[0..self.read_offset]);
@@ -115,9 +142,9 @@ impl PacketStream {
                             self.read_buffer
                                 .copy_within(decode_len..self.read_offset, 0);
                             self.read_offset -= decode_len;
-                            return Ok(Some((packet, packet_bytes)));
+                            return Ok(Received::Packet(packet, packet_bytes));
                         } else {
-                            return Ok(None);
+                            return Ok(Received::Closed);
                         }
                     }
                     Err(e) => match &e.kind {
@@ -134,10 +161,11 @@ impl PacketStream {
                     },
                 }
             }
-            match poll_fn(|cx| self.poll_socket(cx)).await {
-                Ok(len) => {
+            match poll_fn(|cx| self.poll_socket(cx, until_written)).await {
+                Ok(None) => return Ok(Received::Written),
+                Ok(Some(len)) => {
                     if len == 0 && self.read_offset == 0 {
-                        return Ok(None);
+                        return Ok(Received::Closed);
                     }
                     if len == 0 {
                         // the peer is gone, the rest of the packet will never arrive
@@ -165,8 +193,12 @@ impl PacketStream {
     }
 
     /// Writes as much queued data as the peer takes, then reads into the free part of the
-    /// read buffer.
-    fn poll_socket(&mut self, cx: &mut Context<'_>) -> Poll<std::io::Result<usize>> {
+    /// read buffer. Returns None if it was to wait until everything has been written only.
+    fn poll_socket(
+        &mut self,
+        cx: &mut Context<'_>,
+        until_written: bool,
+    ) -> Poll<std::io::Result<Option<usize>>> {
         let written = self.poll_write_queued(cx);
         if self.write_buffer.len() >= MAX_QUEUED_WRITE && written.is_pending() {
             return Poll::Pending;
@@ -178,11 +210,12 @@ impl PacketStream {
             Poll::Pending => {
                 return match written {
                     Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
+                    Poll::Ready(Ok(())) if until_written => Poll::Ready(Ok(None)),
                     _ => Poll::Pending,
                 };
             }
         }
-        Poll::Ready(Ok(free.filled().len()))
+        Poll::Ready(Ok(Some(free.filled().len())))
     }
 
     fn poll_write_queued(&mut self, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 5121949..8ff55d5 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -22,7 +22,7 @@ use tokio::{
 };
 use topic::TopicTree;
 use uuid::Uuid;
-use vaux_async::stream::{AsyncMqttStream, MqttStream, PacketStream};
+use vaux_async::stream::{AsyncMqttStream, MqttStream, PacketStream, Received};
 use vaux_mqtt::subscribe::SubAck;
 use vaux_mqtt::unsubscribe::{UnsubAck, Unsubscribe};
 use vaux_mqtt::Packet::PingResponse;
@@ -236,13 +236,13 @@ impl Broker {
         let mut last_packet = Instant::now();
         loop {
             select! {
-                control = Broker::handle_control(client) => {
+                control = Broker::handle_control(client, !stream.has_queued()) => {
                     match control {
                         SessionControl::Disconnect(reason) => {
                             return Broker::disconnect(stream, reason).await;
                         }
                         SessionControl::Deliver(publish) => {
-                            stream.write(&mut Packet::Publish(*publish)).await?;
+                            stream.queue(&Packet::Publish(*publish))?;
                         }
                     }
                 }
@@ -252,26 +252,26 @@ impl Broker {
                     }
                     return Broker::disconnect(stream, Reason::KeepAliveTimeout).await;
                 }
-                packet_result = stream.read() => {
-                    match packet_result {
-                        Ok(Some(packet)) => {
+                received = stream.read_or_written() => {
+                    match received {
+                        // what else there is for the client can follow
+                        Ok(Received::Written) => {}
+                        Ok(Received::Packet(packet, _)) => {
                             last_packet = Instant::now();
                             if let Some(handle) = client {
                                 if Broker::handle_packet(packet, stream, handle, state).await? {
                                     continue;
                                 }
-                                stream.shutdown().await?;
-                                return Ok(());
+                                return Broker::close(stream).await;
                             }
                             if !Broker::handle_pre_connect(packet, stream, state, client).await? {
-                                stream.shutdown().await?;
-                                return Ok(());
+                                return Broker::close(stream).await;
                             }
                             if let Some(handle) = client {
                                 keep_alive = handle.session.read().await.keep_alive();
                             }
                         }
-                        Ok(None) => {
+                        Ok(Received::Closed) => {
                             if let Some(handle) = client {
                                 tracing::info!(session_id = %handle.session_id, "connection closed");
                             }
@@ -289,10 +289,14 @@ impl Broker {
         }
     }
 
-    /// Tells the client why its connection ends and closes it, without waiting for a client
-    /// that does not read.
+    /// Tells the client why its connection ends and closes it.
     async fn disconnect(stream: &mut PacketStream, reason: Reason) -> Result<(), BrokerError> {
         stream.queue(&Packet::Disconnect(Disconnect::new(reason)))?;
+        Broker::close(stream).await
+    }
+
+    /// Closes the connection without waiting for a client that does not read.
+    async fn close(stream: &mut PacketStream) -> Result<(), BrokerError> {
         if let Ok(result) = tokio::time::timeout(DISCONNECT_TIMEOUT, stream.flush()).await {
             result?;
             stream.shutdown().await?;
@@ -332,8 +336,8 @@ impl Broker {
     ) -> Result<bool, BrokerError> {
         match packet {
             Packet::PingRequest(_p) => {
-                let mut packet = PingResponse(PingResp::default());
-                stream.write(&mut packet).await?;
+                let packet = PingResponse(PingResp::default());
+                stream.queue(&packet)?;
                 Ok(true)
             }
             Packet::Subscribe(subscribe) => {
@@ -343,7 +347,7 @@ impl Broker {
                 }
                 let suback = Broker::handle_subscribe(&subscribe, &handle.session_id, state).await;
                 drop(session);
-                stream.write(&mut Packet::SubAck(suback)).await?;
+                stream.queue(&Packet::SubAck(suback))?;
                 Ok(true)
             }
             Packet::Unsubscribe(unsubscribe) => {
@@ -354,7 +358,7 @@ impl Broker {
                 let unsuback =
                     Broker::handle_unsubscribe(&unsubscribe, &handle.session_id, state).await;
                 drop(session);
-                stream.write(&mut Packet::UnsubAck(unsuback)).await?;
+                stream.queue(&Packet::UnsubAck(unsuback))?;
                 Ok(true)
             }
             Packet::Publish(publish) => {
@@ -362,11 +366,10 @@ impl Broker {
                     match publish.packet_id() {
                         Some(packet_id) => {
                             let puback = vaux_mqtt::PubAck::new_puback_with_packet_id(packet_id);
-                            stream.write(&mut Packet::PubAck(puback)).await?;
+                            stream.queue(&Packet::PubAck(puback))?;
                         }
                         None => {
-                            let disconnect = Disconnect::new(Reason::MalformedPacket);
-                            stream.write(&mut Packet::Disconnect(disconnect)).await?;
+                            Broker::disconnect(stream, Reason::MalformedPacket).await?;
                             return Err(MqttCodecError::new(
                                 "QoS-1 PUBLISH missing packet ID",
                             ).into());
@@ -395,7 +398,7 @@ impl Broker {
             Packet::Connect(_) => {
                 // MQTT 3.1.0: a second CONNECT is a protocol error
                 let disconnect = Disconnect::new(Reason::ProtocolErr);
-                stream.write(&mut Packet::Disconnect(disconnect)).await?;
+                stream.queue(&Packet::Disconnect(disconnect))?;
                 Ok(false)
             }
             _ => Ok(true),
@@ -441,9 +444,12 @@ impl Broker {
         unsuback
     }
 
-    async fn handle_control(client: &mut Option<SessionHandle>) -> SessionControl {
+    async fn handle_control(
+        client: &mut Option<SessionHandle>,
+        deliver: bool,
+    ) -> SessionControl {
         match client {
-            Some(handle) => handle.next_control().await,
+            Some(handle) => handle.next_control(deliver).await,
             None => std::future::pending().await,
         }
     }
@@ -461,15 +467,15 @@ impl Broker {
                     tracing::info!("connection rejected: not accepting connections");
                     let mut ack = ConnAck::default();
                     ack.reason = Reason::ServerBusy;
-                    stream.write(&mut Packet::ConnAck(ack)).await?;
+                    stream.queue(&Packet::ConnAck(ack))?;
                     return Ok(false);
                 }
                 Broker::handle_connect(*packet, stream, state, client).await
             }
             _ => {
                 let header = Disconnect::new(Reason::ProtocolErr);
-                let mut packet = Packet::Disconnect(header);
-                stream.write(&mut packet).await?;
+                let packet = Packet::Disconnect(header);
+                stream.queue(&packet)?;
                 Ok(false)
             }
         }
@@ -535,7 +541,7 @@ impl Broker {
             drop(session_pool);
             tracing::info!(session_id = %session_id, "connection rejected: max active sessions reached");
             ack.reason = Reason::QuotaExceeded;
-            stream.write(&mut Packet::ConnAck(ack)).await?;
+            stream.queue(&Packet::ConnAck(ack))?;
             return Ok(false);
         }
 
@@ -597,7 +603,7 @@ impl Broker {
         *client = SessionHandle::attach(&session).await;
         drop(session_pool);
         tracing::info!(session_id = %session_id, "client connected");
-        stream.write(&mut Packet::ConnAck(ack)).await?;
+        stream.queue(&Packet::ConnAck(ack))?;
         Ok(true)
     }
 
diff --git a/vaux-broker/src/session.rs b/vaux-broker/src/session.rs
index 1d000ad..b2f88ab 100644
--- a/vaux-broker/src/session.rs
+++ b/vaux-broker/src/session.rs
@@ -224,18 +224,18 @@ impl SessionHandle {
     }
 
     /// Waits for something to do for the connection. Once it has been told to end it is given
-    /// nothing else to do.
-    pub async fn next_control(&mut self) -> SessionControl {
+    /// nothing else to do. Deliveries are held back unless `deliver` is set.
+    pub async fn next_control(&mut self, deliver: bool) -> SessionControl {
         tokio::select! {
             biased;
             kick = self.kick.wait_for(|reason| reason.is_some()) => {
                 let reason = kick.ok().and_then(|reason| *reason);
                 SessionControl::Disconnect(reason.unwrap_or(Reason::SessionTakeOver))
             }
-            Some(publish) = Self::redelivery(&self.session, &mut self.redeliver) => {
+            Some(publish) = Self::redelivery(&self.session, &mut self.redeliver), if deliver => {
                 SessionControl::Deliver(Box::new(publish))
             }
-            Some(control) = self.control.recv() => control,
+            Some(control) = self.control.recv(), if deliver => control,
         }
     }
 
-- 
2.43.0


From 76fb6c81bb6b7b477a4a31123136e094027a8790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:57 +0000
Subject: [PATCH 20/48] fix: new messages wait until the unacknowledged ones
 have been redelivered

---
 vaux-broker/src/session.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/vaux-broker/src/session.rs b/vaux-broker/src/session.rs
index b2f88ab..b7714bd 100644
--- a/vaux-broker/src/session.rs
+++ b/vaux-broker/src/session.rs
@@ -232,10 +232,26 @@ impl SessionHandle {
                 let reason = kick.ok().and_then(|reason| *reason);
                 SessionControl::Disconnect(reason.unwrap_or(Reason::SessionTakeOver))
             }
-            Some(publish) = Self::redelivery(&self.session, &mut self.redeliver), if deliver => {
-                SessionControl::Deliver(Box::new(publish))
-            }
-            Some(control) = self.control.recv(), if deliver => control,
+            control = Self::next_delivery(
+                &self.session,
+                &mut self.redeliver,
+                &mut self.control
+            ), if deliver => control,
+        }
+    }
+
+    // what is new follows when everything has been redelivered
+    async fn next_delivery(
+        session: &RwLock<Session>,
+        redeliver: &mut VecDeque<(u64, u16)>,
+        control: &mut Receiver<SessionControl>,
+    ) -> SessionControl {
+        if let Some(publish) = Self::redelivery(session, redeliver).await {
+            return SessionControl::Deliver(Box::new(publish));
+        }
+        match control.recv().await {
+            Some(control) => control,
+            None => std::future::pending().await,
         }
     }
 
-- 
2.43.0


From 3b85acb81eb52b9b6a6c7b2ac1f7dabf0a4a51c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:14 +0000
Subject: [PATCH 21/48] fix: a message for a discarded session does not reach
 the one that replaced it

---
 vaux-broker/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 8ff55d5..f5272a2 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -659,11 +659,12 @@ impl Broker {
     }
 
     async fn route_publish(publish: &Publish, sender_session_id: &str, state: &BrokerState) {
+        // the sessions must not change between finding the subscribers and delivering to them
+        let session_pool = state.session_pool.read().await;
         let subscribers = {
             let tree = state.topic_tree.read().await;
             tree.matching_subscribers(&publish.topic_name)
         };
-        let session_pool = state.session_pool.read().await;
         for sub in &subscribers {
             if sub.no_local && *sub.session_id == *sender_session_id {
                 continue;
-- 
2.43.0


From c042a4fe59e147c3e530b010e54c883e96ca2975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:06 +0000
Subject: [PATCH 22/48] fix: decoded acknowledgements keep their packet type

---
 vaux-mqtt/src/codec/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index 7274d9f..36c3621 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -525,22 +525,22 @@ fn decode_body(
             Ok(Some((Packet::Publish(publish), decode_len)))
         }
         PacketType::PubAck => {
-            let mut puback = PubAck::default();
+            let mut puback = PubAck::new_with_fixed_header(fixed_header)?;
             decode_len += puback.decode(src)?;
             Ok(Some((Packet::PubAck(puback), decode_len)))
         }
         PacketType::PubComp => {
-            let mut pubcomp = PubComp::default();
+            let mut pubcomp = PubComp::new_with_fixed_header(fixed_header)?;
             decode_len += pubcomp.decode(src)?;
             Ok(Some((Packet::PubComp(pubcomp), decode_len)))
         }
         PacketType::PubRec => {
-            let mut pubrec = PubRec::default();
+            let mut pubrec = PubRec::new_with_fixed_header(fixed_header)?;
             decode_len += pubrec.decode(src)?;
             Ok(Some((Packet::PubRec(pubrec), decode_len)))
         }
         PacketType::PubRel => {
-            let mut pubrel = PubRel::default();
+            let mut pubrel = PubRel::new_with_fixed_header(fixed_header)?;
             decode_len += pubrel.decode(src)?;
             Ok(Some((Packet::PubRel(pubrel), decode_len)))
         }
-- 
2.43.0


From 654f5f8bdd1ca9bade1bbb6d7e45d13b2dd9638b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:06 +0000
Subject: [PATCH 23/48] fix: acknowledgements and DISCONNECT may leave out the
 property length

---
 vaux-macro/src/decode.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vaux-macro/src/decode.rs b/vaux-macro/src/decode.rs
index 8c71283..4796807 100644
--- a/vaux-macro/src/decode.rs
+++ b/vaux-macro/src/decode.rs
@@ -195,6 +195,9 @@ pub(crate) fn decode_internal(input: TokenStream) -> TokenStream {
         quote! {}
     };
 
+    // the property length is optional as well when the packet may be abbreviated
+    let no_properties_check = abbreviated_check.clone();
+
     let decode_impl = quote! {
         impl codec::Decode for #struct_name {
             fn decode(&mut self, src: &mut bytes::BytesMut) -> Result<usize, MqttCodecError> {
@@ -205,6 +208,7 @@ pub(crate) fn decode_internal(input: TokenStream) -> TokenStream {
                 #(#header_field_decoded)*
                 #abbreviated_check
                 #(#non_abbreviated_header_decoded)*
+                #no_properties_check
                 #min_size_check
                 #decode_properties
                 #(#decode_field_payload)*
-- 
2.43.0


From 63a010a2df579ff96d1f6be3e8f949a80d198c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:58 +0000
Subject: [PATCH 24/48] fix: packet identifiers never wrap around to 0

---
 vaux-client/src/session.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index 98ebad4..f05d893 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -304,12 +304,13 @@ impl ClientSession {
                     } else if self.state.auto_packet_id {
                         // if auto packet ID is enabled, generate a packet ID
                         self.state.last_packet_id = self.state.last_packet_id.wrapping_add(1);
-                        // verify the packet ID is not already in use
+                        // verify the packet ID is not already in use, 0 is not a packet ID
                         // TODO improve in-use packet ID managment
-                        while self
-                            .state
-                            .pending_qos_send
-                            .contains_key(&self.state.last_packet_id)
+                        while self.state.last_packet_id == 0
+                            || self
+                                .state
+                                .pending_qos_send
+                                .contains_key(&self.state.last_packet_id)
                         {
                             self.state.last_packet_id = self.state.last_packet_id.wrapping_add(1);
                         }
-- 
2.43.0


From 1d8b3e9f3b61e5d1d3b7c1864a278dfec8e41c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:25 +0000
Subject: [PATCH 25/48] fix: the client waits while the server's receive
 maximum is reached

---
 vaux-client/src/session.rs | 125 +++++++++++++++++++++++--------------
 1 file changed, 78 insertions(+), 47 deletions(-)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index f05d893..594d36a 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -1,6 +1,10 @@
 use crate::{ErrorKind, MqttClient, MqttError};
 use std::mem;
-use std::{collections::HashMap, sync::Arc, time::Duration};
+use std::{
+    collections::{HashMap, VecDeque},
+    sync::Arc,
+    time::Duration,
+};
 use tokio::sync::{Mutex, RwLock};
 use vaux_mqtt::WillMessage;
 use vaux_mqtt::publish::Publish;
@@ -75,6 +79,8 @@ pub struct SessionState {
 
     pub(crate) qos_send_remaining: usize,
     pending_qos_send: HashMap<u16, QoSPacketState>,
+    // publishes that wait for the server to acknowledge earlier ones, in order
+    queued_send: VecDeque<Publish>,
     pub(crate) qos_recv_remaining: usize,
     pending_qos_recv: HashMap<u16, QoSPacketState>,
 
@@ -104,6 +110,7 @@ impl SessionState {
             session_expiry: Arc::new(RwLock::new(DEFAULT_SESSION_EXPIRY)),
             qos_send_remaining: u16::MAX as usize,
             pending_qos_send: HashMap::new(),
+            queued_send: VecDeque::new(),
             qos_recv_remaining: u16::MAX as usize,
             pending_qos_recv: HashMap::new(),
 
@@ -282,11 +289,11 @@ impl ClientSession {
 
     pub(crate) async fn write_next(&mut self, packet: Packet) -> Result<(), MqttError> {
         match packet {
-            Packet::Publish(mut p) => {
-                if p.qos() == QoSLevel::AtLeastOnce || p.qos() == QoSLevel::ExactlyOnce {
+            Packet::Publish(p) => {
+                if p.qos() != QoSLevel::AtMostOnce {
                     // check the pending qos for available space
-                    if self.state.pending_qos_send.len() >= u16::MAX as usize
-                        || self.state.qos_send_remaining == 0
+                    if self.state.pending_qos_send.len() + self.state.queued_send.len()
+                        >= u16::MAX as usize
                     {
                         return Err(MqttError::new(
                             "pending QoS packets full",
@@ -295,56 +302,22 @@ impl ClientSession {
                     }
                     // verify client set packet ID is not already in use
                     if let Some(packet_id) = p.packet_id() {
-                        if self.state.pending_qos_send.contains_key(&packet_id) {
+                        if self.packet_id_in_use(packet_id) {
                             return Err(MqttError::new(
                                 "packet ID already in use",
                                 ErrorKind::Protocol(Reason::MalformedPacket),
                             ));
                         }
-                    } else if self.state.auto_packet_id {
-                        // if auto packet ID is enabled, generate a packet ID
-                        self.state.last_packet_id = self.state.last_packet_id.wrapping_add(1);
-                        // verify the packet ID is not already in use, 0 is not a packet ID
-                        // TODO improve in-use packet ID managment
-                        while self.state.last_packet_id == 0
-                            || self
-                                .state
-                                .pending_qos_send
-                                .contains_key(&self.state.last_packet_id)
-                        {
-                            self.state.last_packet_id = self.state.last_packet_id.wrapping_add(1);
-                        }
-                        p.set_packet_id(Some(self.state.last_packet_id))
-                            .map_err(|e| {
-                                MqttError::new(
-                                    &format!("{e}"),
-                                    ErrorKind::Protocol(Reason::MalformedPacket),
-                                )
-                            })?;
-                    } else {
+                    } else if !self.state.auto_packet_id {
                         // if no packet ID is set and auto packet ID is disabled, return an error
                         return Err(MqttError::new(
                             "no packet ID for QoS > 0",
                             ErrorKind::Protocol(Reason::MalformedPacket),
                         ));
                     }
-                    match p.qos() {
-                        QoSLevel::AtLeastOnce => {
-                            self.state.pending_qos_send.insert(
-                                p.packet_id().unwrap(),
-                                QoSPacketState::new_qos1(Packet::Publish(p.clone())),
-                            );
-                        }
-                        QoSLevel::ExactlyOnce => {
-                            self.state.pending_qos_send.insert(
-                                p.packet_id().unwrap(),
-                                QoSPacketState::new_qos2(Packet::Publish(p.clone())),
-                            );
-                        }
-                        _ => {}
-                    }
                 }
-                self.send_packet(Packet::Publish(p)).await
+                self.state.queued_send.push_back(p);
+                self.send_queued().await
             }
             Packet::Disconnect(d) => {
                 self.send_packet(Packet::Disconnect(d)).await?;
@@ -357,6 +330,64 @@ impl ClientSession {
         }
     }
 
+    fn packet_id_in_use(&self, packet_id: u16) -> bool {
+        self.state.pending_qos_send.contains_key(&packet_id)
+            || self
+                .state
+                .queued_send
+                .iter()
+                .any(|queued| queued.packet_id() == Some(packet_id))
+    }
+
+    /// Sends queued publishes, in order, up to the first that the receive maximum of the
+    /// server does not allow yet.
+    async fn send_queued(&mut self) -> crate::Result<()> {
+        while let Some(next) = self.state.queued_send.front() {
+            if next.qos() != QoSLevel::AtMostOnce && self.state.qos_send_remaining == 0 {
+                break;
+            }
+            let Some(mut p) = self.state.queued_send.pop_front() else {
+                break;
+            };
+            if p.qos() != QoSLevel::AtMostOnce {
+                let packet_id = match p.packet_id() {
+                    Some(packet_id) => packet_id,
+                    None => {
+                        let packet_id = self.next_packet_id();
+                        p.set_packet_id(Some(packet_id)).map_err(|e| {
+                            MqttError::new(
+                                &format!("{e}"),
+                                ErrorKind::Protocol(Reason::MalformedPacket),
+                            )
+                        })?;
+                        packet_id
+                    }
+                };
+                let packet = Packet::Publish(p.clone());
+                let pending = if p.qos() == QoSLevel::AtLeastOnce {
+                    QoSPacketState::new_qos1(packet)
+                } else {
+                    QoSPacketState::new_qos2(packet)
+                };
+                self.state.pending_qos_send.insert(packet_id, pending);
+                self.state.qos_send_remaining -= 1;
+            }
+            self.send_packet(Packet::Publish(p)).await?;
+        }
+        Ok(())
+    }
+
+    /// Generates a packet ID that is not in use.
+    fn next_packet_id(&mut self) -> u16 {
+        loop {
+            self.state.last_packet_id = self.state.last_packet_id.wrapping_add(1);
+            // 0 is not a packet ID
+            if self.state.last_packet_id != 0 && !self.packet_id_in_use(self.state.last_packet_id) {
+                return self.state.last_packet_id;
+            }
+        }
+    }
+
     pub(crate) async fn handle_packet(
         &mut self,
         packet: Packet,
@@ -383,6 +414,7 @@ impl ClientSession {
                         QoSPacket::PubAck => {
                             self.state.pending_qos_send.remove(&puback.packet_id);
                             self.state.qos_send_remaining += 1;
+                            self.send_queued().await?;
                         }
                         _ => {
                             // protocol error, unexpected packet - disconnect
@@ -523,8 +555,9 @@ impl ClientSession {
                 if let Some(p) = self.state.pending_qos_send.remove(&packet_id) {
                     match p.next {
                         QoSPacket::PubComp => {
-                            //  do nothing - removed from pending qos
+                            // removed from pending qos
                             self.state.qos_send_remaining += 1;
+                            self.send_queued().await?;
                         }
                         _ => {
                             // protocol error, unexpected packet
@@ -596,9 +629,7 @@ impl ClientSession {
             *session_expiry = Duration::from_secs(u64::from(server_session_expiry));
         }
         // set the server assigned receive maximum
-        if let Some(receive_max) = connack.receive_maximum {
-            self.state.qos_send_remaining = receive_max as usize;
-        }
+        self.state.qos_send_remaining = connack.receive_maximum.unwrap_or(u16::MAX) as usize;
         Ok(connack)
     }
 
-- 
2.43.0


From be90b455bf27ca2276e430744caf826b332ec8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:46 +0000
Subject: [PATCH 26/48] fix: a failing PUBREC ends the exchange; a repeated
 PUBREC gets PUBREL again

---
 vaux-client/src/session.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index 594d36a..a544a05 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -436,6 +436,13 @@ impl ClientSession {
                 let packet_id = pubrec.packet_id;
                 if let Some(p) = self.state.pending_qos_send.remove(&packet_id) {
                     match p.next {
+                        QoSPacket::PubRec
+                            if pubrec.reason().is_some_and(|r| r as u8 >= 0x80) =>
+                        {
+                            // the server does not take the message, nothing follows
+                            self.state.qos_send_remaining += 1;
+                            self.send_queued().await?;
+                        }
                         QoSPacket::PubRec => {
                             if self.state.auto_ack {
                                 // insert PUBREL into pending qos
@@ -487,6 +494,12 @@ impl ClientSession {
                                 }
                             }
                         }
+                        QoSPacket::PubComp if self.state.auto_ack => {
+                            // the server has not seen the PUBREL yet
+                            self.state.pending_qos_send.insert(packet_id, p);
+                            let pubrel = PubResp::new_pubrel_with_packet_id(packet_id);
+                            self.send_packet(Packet::PubRel(pubrel)).await?;
+                        }
                         _ => {
                             // protocol error, unexpected packet
                             // re-insert into pending qos without change
-- 
2.43.0


From f9a0bab950943152c740eadbdfe609a56268904a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:06 +0000
Subject: [PATCH 27/48] fix: manual acknowledgements, repeated QoS 2 publishes
 and the client's receive maximum

---
 vaux-client/src/builder.rs |   2 +-
 vaux-client/src/session.rs | 347 ++++++++++++++++---------------------
 2 files changed, 151 insertions(+), 198 deletions(-)

diff --git a/vaux-client/src/builder.rs b/vaux-client/src/builder.rs
index 1ec76e6..f4c8309 100644
--- a/vaux-client/src/builder.rs
+++ b/vaux-client/src/builder.rs
@@ -85,7 +85,7 @@ impl ClientBuilder {
     }
 
     pub fn with_receive_max(mut self, receive_max: u16) -> Self {
-        self.state.qos_recv_remaining = receive_max as usize;
+        self.state.receive_max = usize::from(receive_max.max(1));
         self
     }
 
diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index a544a05..0af195a 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -30,7 +30,6 @@ enum QoSPacket {
 
 #[derive(Debug)]
 struct QoSPacketState {
-    packet_id: u16,
     #[allow(dead_code)]
     packet: Option<Packet>,
     next: QoSPacket,
@@ -39,7 +38,6 @@ struct QoSPacketState {
 impl QoSPacketState {
     pub fn new_qos1(packet: Packet) -> Self {
         Self {
-            packet_id: 0,
             packet: Some(packet),
             next: QoSPacket::PubAck,
         }
@@ -47,30 +45,25 @@ impl QoSPacketState {
 
     pub fn new_qos2(packet: Packet) -> Self {
         Self {
-            packet_id: 0,
             packet: Some(packet),
             next: QoSPacket::PubRec,
         }
     }
 
-    pub fn next(self) -> Option<Self> {
-        match self.next {
-            QoSPacket::PubAck => None,
-            QoSPacket::PubRec => Some(Self {
-                packet_id: self.packet_id,
-                packet: None,
-                next: QoSPacket::PubRel,
-            }),
-            QoSPacket::PubRel => Some(Self {
-                packet_id: self.packet_id,
-                packet: None,
-                next: QoSPacket::PubComp,
-            }),
-            QoSPacket::PubComp => None,
-        }
+    /// Moves to the next packet of a QoS 2 exchange, the message is not needed for those.
+    pub fn advance(&mut self) {
+        self.packet = None;
+        self.next = match self.next {
+            QoSPacket::PubRec => QoSPacket::PubRel,
+            _ => QoSPacket::PubComp,
+        };
     }
 }
 
+fn is_error(response: &PubResp) -> bool {
+    response.reason().is_some_and(|r| r as u8 >= 0x80)
+}
+
 #[derive(Debug)]
 pub struct SessionState {
     pub(crate) client_id: Arc<Mutex<Option<String>>>,
@@ -81,7 +74,8 @@ pub struct SessionState {
     pending_qos_send: HashMap<u16, QoSPacketState>,
     // publishes that wait for the server to acknowledge earlier ones, in order
     queued_send: VecDeque<Publish>,
-    pub(crate) qos_recv_remaining: usize,
+    pub(crate) receive_max: usize,
+    qos_recv_remaining: usize,
     pending_qos_recv: HashMap<u16, QoSPacketState>,
 
     pub(crate) max_packet_size: usize,
@@ -111,6 +105,7 @@ impl SessionState {
             qos_send_remaining: u16::MAX as usize,
             pending_qos_send: HashMap::new(),
             queued_send: VecDeque::new(),
+            receive_max: u16::MAX as usize,
             qos_recv_remaining: u16::MAX as usize,
             pending_qos_recv: HashMap::new(),
 
@@ -211,6 +206,10 @@ impl ClientSession {
         }
         connect
             .set_session_expiry_interval(self.state.session_expiry.read().await.as_secs() as u32);
+        self.state.qos_recv_remaining = self.state.receive_max;
+        if self.state.receive_max < u16::MAX as usize {
+            connect.receive_maximum = Some(self.state.receive_max as u16);
+        }
         if let Some((username, password)) = credentials {
             connect.set_username(Some(username));
             connect.set_password(Some(password.into_bytes()));
@@ -326,7 +325,10 @@ impl ClientSession {
                 *self.connected.write().await = false;
                 Ok(())
             }
-            _ => self.send_packet(packet).await,
+            _ => {
+                self.track_app_response(&packet);
+                self.send_packet(packet).await
+            }
         }
     }
 
@@ -377,6 +379,17 @@ impl ClientSession {
         Ok(())
     }
 
+    async fn send_pubrel(&mut self, packet_id: u16) -> crate::Result<()> {
+        let pubrel = PubResp::new_pubrel_with_packet_id(packet_id);
+        self.send_packet(Packet::PubRel(pubrel)).await?;
+        if let Some(p) = self.state.pending_qos_send.get_mut(&packet_id)
+            && p.next == QoSPacket::PubRel
+        {
+            p.advance();
+        }
+        Ok(())
+    }
+
     /// Generates a packet ID that is not in use.
     fn next_packet_id(&mut self) -> u16 {
         loop {
@@ -406,7 +419,7 @@ impl ClientSession {
                 ));
             }
             Packet::Publish(publish) => {
-                self.handle_recv_publish(publish.clone()).await?;
+                packet_to_consumer = self.handle_recv_publish(publish.clone()).await?;
             }
             Packet::PubAck(puback) => {
                 if let Some(p) = self.state.pending_qos_send.get(&puback.packet_id) {
@@ -434,76 +447,27 @@ impl ClientSession {
             }
             Packet::PubRec(pubrec) => {
                 let packet_id = pubrec.packet_id;
-                if let Some(p) = self.state.pending_qos_send.remove(&packet_id) {
+                if let Some(p) = self.state.pending_qos_send.get_mut(&packet_id) {
                     match p.next {
-                        QoSPacket::PubRec
-                            if pubrec.reason().is_some_and(|r| r as u8 >= 0x80) =>
-                        {
+                        QoSPacket::PubRec if is_error(pubrec) => {
                             // the server does not take the message, nothing follows
+                            self.state.pending_qos_send.remove(&packet_id);
                             self.state.qos_send_remaining += 1;
                             self.send_queued().await?;
                         }
                         QoSPacket::PubRec => {
+                            p.advance();
                             if self.state.auto_ack {
-                                // insert PUBREL into pending qos
-                                let pubrec_state = p.next().ok_or(MqttError::new(
-                                    "invalid session state",
-                                    ErrorKind::Session,
-                                ))?;
-                                self.state.pending_qos_send.insert(packet_id, pubrec_state);
-                                // create the PUBREL packet
-                                let pubrel = PubResp::new_pubrel_with_packet_id(packet_id);
-                                match self.send_packet(Packet::PubRel(pubrel)).await {
-                                    Ok(_) => {
-                                        // remove from pending qos
-                                        if let Some(pubrec_packet) =
-                                            self.state.pending_qos_send.remove(&packet_id)
-                                        {
-                                            match pubrec_packet.next {
-                                                QoSPacket::PubRel => {
-                                                    self.state.pending_qos_send.insert(
-                                                        packet_id,
-                                                        pubrec_packet.next().ok_or(
-                                                            MqttError::new(
-                                                                "invalid session state",
-                                                                ErrorKind::Session,
-                                                            ),
-                                                        )?,
-                                                    );
-                                                }
-                                                _ => {
-                                                    // protocol error, unexpected packet
-                                                    // re-insert into pending qos without change
-                                                    self.state
-                                                        .pending_qos_send
-                                                        .insert(packet_id, pubrec_packet);
-                                                    return Err(MqttError::new(
-                                                        "unexpected control packet",
-                                                        ErrorKind::Protocol(Reason::ProtocolErr),
-                                                    ));
-                                                }
-                                            }
-                                        }
-                                    }
-                                    Err(_) => {
-                                        return Err(MqttError::new(
-                                            "unable to send pub rel",
-                                            ErrorKind::Transport,
-                                        ));
-                                    }
-                                }
+                                self.send_pubrel(packet_id).await?;
                             }
                         }
+                        // sent again, the server has not seen the PUBREL
                         QoSPacket::PubComp if self.state.auto_ack => {
-                            // the server has not seen the PUBREL yet
-                            self.state.pending_qos_send.insert(packet_id, p);
-                            let pubrel = PubResp::new_pubrel_with_packet_id(packet_id);
-                            self.send_packet(Packet::PubRel(pubrel)).await?;
+                            self.send_pubrel(packet_id).await?;
                         }
+                        QoSPacket::PubRel | QoSPacket::PubComp => {}
                         _ => {
                             // protocol error, unexpected packet
-                            // re-insert into pending qos without change
-                            self.state.pending_qos_send.insert(packet_id, p);
                             // TODO disconnect
                             return Err(MqttError::new(
                                 "unexpected control packet",
@@ -522,45 +486,28 @@ impl ClientSession {
             }
             Packet::PubRel(pubrel) => {
                 let packet_id = pubrel.packet_id;
-                if let Some(p) = self.state.pending_qos_recv.remove(&packet_id) {
+                if let Some(p) = self.state.pending_qos_recv.get_mut(&packet_id) {
                     match p.next {
-                        QoSPacket::PubRel => {
-                            if self.state.auto_ack {
-                                let pubcomp = PubResp::new_pubcomp_with_packet_id(packet_id);
-                                match self.send_packet(Packet::PubComp(pubcomp)).await {
-                                    Ok(_) => {
-                                        // remove from pending qos
-                                        self.state.pending_qos_recv.remove(&packet_id);
-                                        self.state.qos_recv_remaining += 1;
-                                    }
-                                    Err(_) => {
-                                        // re-insert into pending qos without change
-                                        self.state.pending_qos_recv.insert(packet_id, p);
-                                        return Err(MqttError::new(
-                                            "unable to send pub comp",
-                                            ErrorKind::Transport,
-                                        ));
-                                    }
-                                }
-                            }
+                        QoSPacket::PubRel if self.state.auto_ack => {
+                            let pubcomp = PubResp::new_pubcomp_with_packet_id(packet_id);
+                            self.send_packet(Packet::PubComp(pubcomp)).await?;
+                            self.complete_recv(packet_id);
                         }
+                        // the application sends the PUBCOMP
+                        QoSPacket::PubRel => p.advance(),
+                        QoSPacket::PubComp => {}
                         _ => {
                             // protocol error, unexpected packet
-                            // re-insert into pending qos without change
-                            self.state.pending_qos_recv.insert(packet_id, p);
                             return Err(MqttError::new(
                                 "unexpected packet",
                                 ErrorKind::Protocol(Reason::ProtocolErr),
                             ));
                         }
                     }
-                } else {
-                    // protocol error, unexpected packet
-                    // TODO disconnect
-                    return Err(MqttError::new(
-                        "unexpected packet",
-                        ErrorKind::Protocol(Reason::ProtocolErr),
-                    ));
+                } else if self.state.auto_ack {
+                    // sent again, the server has not seen the PUBCOMP
+                    let pubcomp = PubResp::new_pubcomp_with_packet_id(packet_id);
+                    self.send_packet(Packet::PubComp(pubcomp)).await?;
                 }
             }
             Packet::PubComp(pubcomp) => {
@@ -646,104 +593,110 @@ impl ClientSession {
         Ok(connack)
     }
 
-    async fn handle_recv_publish(&mut self, publish: Publish) -> crate::Result<()> {
-        match publish.qos() {
-            vaux_mqtt::QoSLevel::AtMostOnce => Ok(()),
+    /// Acknowledges a publish from the server if the application does not do so. Returns
+    /// false if the application already has the message.
+    async fn handle_recv_publish(&mut self, publish: Publish) -> crate::Result<bool> {
+        if publish.qos() == QoSLevel::AtMostOnce {
+            return Ok(true);
+        }
+        let Some(packet_id) = publish.packet_id() else {
+            // TODO send disconnect with reason cod
+            let _ = self.packet_stream.shutdown().await;
+            return Err(MqttError::new(
+                "protocol error, packet ID required with QoS > 0",
+                ErrorKind::Protocol(Reason::MalformedPacket),
+            ));
+        };
+        if publish.qos() == QoSLevel::ExactlyOnce
+            && self.state.auto_ack
+            && let Some(p) = self.state.pending_qos_recv.get(&packet_id)
+            && p.next == QoSPacket::PubRel
+        {
+            // sent again, the server has not seen the PUBREC
+            let pubrec = PubResp::new_pubrec_with_packet_id(packet_id);
+            self.send_packet(Packet::PubRec(pubrec)).await?;
+            return Ok(false);
+        }
+        if self.state.qos_recv_remaining == 0 {
+            // protocol error, no more QoS packets allowed
+            return Err(MqttError::new(
+                "no more QoS packets allowed",
+                ErrorKind::Protocol(Reason::ProtocolErr),
+            ));
+        }
+        if self.state.auto_ack && publish.qos() == QoSLevel::AtLeastOnce {
+            let puback = PubResp::new_puback_with_packet_id(packet_id);
+            self.send_packet(Packet::PubAck(puback)).await?;
+            return Ok(true);
+        }
+        let qos = publish.qos();
+        let packet = Packet::Publish(publish);
+        let mut pending = if qos == QoSLevel::AtLeastOnce {
+            QoSPacketState::new_qos1(packet)
+        } else {
+            QoSPacketState::new_qos2(packet)
+        };
+        if self.state.auto_ack {
+            let pubrec = PubResp::new_pubrec_with_packet_id(packet_id);
+            self.send_packet(Packet::PubRec(pubrec)).await?;
+            pending.advance();
+        }
+        // one less may be sent until the exchange is complete
+        if self
+            .state
+            .pending_qos_recv
+            .insert(packet_id, pending)
+            .is_none()
+        {
+            self.state.qos_recv_remaining -= 1;
+        }
+        Ok(true)
+    }
+
+    /// Ends an exchange for a message from the server.
+    fn complete_recv(&mut self, packet_id: u16) {
+        self.state.pending_qos_recv.remove(&packet_id);
+        if self.state.qos_recv_remaining < self.state.receive_max {
+            self.state.qos_recv_remaining += 1;
+        }
+    }
 
-            vaux_mqtt::QoSLevel::AtLeastOnce => {
-                if self.state.qos_recv_remaining == 0 {
-                    // protocol error, no more QoS packets allowed
-                    return Err(MqttError::new(
-                        "no more QoS packets allowed",
-                        ErrorKind::Protocol(Reason::ProtocolErr),
-                    ));
+    /// Keeps track of an acknowledgement that the application sends.
+    fn track_app_response(&mut self, packet: &Packet) {
+        match packet {
+            Packet::PubAck(puback) => {
+                if let Some(p) = self.state.pending_qos_recv.get(&puback.packet_id)
+                    && p.next == QoSPacket::PubAck
+                {
+                    self.complete_recv(puback.packet_id);
                 }
-                // insert into pending receive QoS
-                self.state.pending_qos_recv.insert(
-                    publish.packet_id().unwrap(),
-                    QoSPacketState::new_qos1(Packet::Publish(publish.clone())),
-                );
-                if self.state.auto_ack {
-                    let puback = if let Some(packet_id) = publish.packet_id() {
-                        PubResp::new_puback_with_packet_id(packet_id)
+            }
+            Packet::PubRec(pubrec) => {
+                if let Some(p) = self.state.pending_qos_recv.get_mut(&pubrec.packet_id)
+                    && p.next == QoSPacket::PubRec
+                {
+                    if is_error(pubrec) {
+                        self.complete_recv(pubrec.packet_id);
                     } else {
-                        // TODO send disconnect with reason cod
-                        let _ = self.packet_stream.shutdown().await;
-                        return Err(MqttError::new(
-                            "protocol error, packet ID required with QoS > 0",
-                            ErrorKind::Protocol(Reason::MalformedPacket),
-                        ));
-                    };
-                    self.state.qos_recv_remaining -= 1;
-                    match self.send_packet(Packet::PubAck(puback)).await {
-                        Ok(_) => {
-                            self.state
-                                .pending_qos_recv
-                                .remove(&publish.packet_id().unwrap());
-                            self.state.qos_recv_remaining += 1;
-                            Ok(())
-                        }
-                        Err(_) => {
-                            // TODO handle the pub ack next time through
-                            // push a message to the last error channel
-                            Err(MqttError::new(
-                                "unable to send pub ack",
-                                ErrorKind::Transport,
-                            ))
-                        }
+                        p.advance();
                     }
-                } else {
-                    // not auto ack, remaining - 1 until client app sends response
-                    self.state.qos_recv_remaining -= 1;
-                    Ok(())
                 }
             }
-            vaux_mqtt::QoSLevel::ExactlyOnce => {
-                self.state.pending_qos_recv.insert(
-                    publish.packet_id().unwrap(),
-                    QoSPacketState::new_qos2(Packet::Publish(publish.clone())),
-                );
-                // decrement the remaining QoS packets until ack  sent
-                self.state.qos_recv_remaining -= 1;
-                if self.state.auto_ack {
-                    let pubrec = if let Some(packet_id) = publish.packet_id() {
-                        PubResp::new_pubrec_with_packet_id(packet_id)
-                    } else {
-                        // protocol error, packet ID required with QoS > 0
-                        let _ = self.packet_stream.shutdown().await;
-                        return Err(MqttError::new(
-                            "protocol error, packet ID required with QoS > 0",
-                            ErrorKind::Protocol(Reason::MalformedPacket),
-                        ));
-                    };
-                    match self.send_packet(Packet::PubRec(pubrec)).await {
-                        Ok(_) => {
-                            // move to next state and re-insert into pending qos
-                            let next = self
-                                .state
-                                .pending_qos_recv
-                                .remove(&publish.packet_id().unwrap())
-                                .map(|p| p.next().unwrap())
-                                .ok_or(MqttError::new(
-                                    "invalid session state",
-                                    ErrorKind::Session,
-                                ))?;
-                            self.state
-                                .pending_qos_recv
-                                .insert(publish.packet_id().unwrap(), next);
-                        }
-                        Err(_) => {
-                            // TODO handle the pub rec next time through
-                            // push a message to the last error channel
-                            return Err(MqttError::new(
-                                "unable to send pub rec",
-                                ErrorKind::Transport,
-                            ));
-                        }
-                    }
+            Packet::PubComp(pubcomp) => {
+                if let Some(p) = self.state.pending_qos_recv.get(&pubcomp.packet_id)
+                    && p.next == QoSPacket::PubComp
+                {
+                    self.complete_recv(pubcomp.packet_id);
                 }
-                Ok(())
             }
+            Packet::PubRel(pubrel) => {
+                if let Some(p) = self.state.pending_qos_send.get_mut(&pubrel.packet_id)
+                    && p.next == QoSPacket::PubRel
+                {
+                    p.advance();
+                }
+            }
+            _ => {}
         }
     }
 
-- 
2.43.0


From a361d832e21c0305332459d69106cee2b5bedede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:26 +0000
Subject: [PATCH 28/48] fix: unacknowledged publishes are sent again on a
 resumed session

---
 vaux-client/src/session.rs | 150 +++++++++++++++++++++++++++----------
 1 file changed, 109 insertions(+), 41 deletions(-)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index 0af195a..47ccd8c 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -30,9 +30,10 @@ enum QoSPacket {
 
 #[derive(Debug)]
 struct QoSPacketState {
-    #[allow(dead_code)]
     packet: Option<Packet>,
     next: QoSPacket,
+    // the order in which packets are sent again
+    sequence: u64,
 }
 
 impl QoSPacketState {
@@ -40,6 +41,7 @@ impl QoSPacketState {
         Self {
             packet: Some(packet),
             next: QoSPacket::PubAck,
+            sequence: 0,
         }
     }
 
@@ -47,6 +49,7 @@ impl QoSPacketState {
         Self {
             packet: Some(packet),
             next: QoSPacket::PubRec,
+            sequence: 0,
         }
     }
 
@@ -70,7 +73,9 @@ pub struct SessionState {
     pub(crate) keep_alive: Arc<RwLock<Duration>>,
     pub(crate) session_expiry: Arc<RwLock<Duration>>,
 
-    pub(crate) qos_send_remaining: usize,
+    send_max: usize,
+    qos_send_remaining: usize,
+    last_sequence: u64,
     pending_qos_send: HashMap<u16, QoSPacketState>,
     // publishes that wait for the server to acknowledge earlier ones, in order
     queued_send: VecDeque<Publish>,
@@ -102,7 +107,9 @@ impl SessionState {
             )))),
             keep_alive: Arc::new(RwLock::new(DEFAULT_CLIENT_KEEP_ALIVE)),
             session_expiry: Arc::new(RwLock::new(DEFAULT_SESSION_EXPIRY)),
+            send_max: u16::MAX as usize,
             qos_send_remaining: u16::MAX as usize,
+            last_sequence: 0,
             pending_qos_send: HashMap::new(),
             queued_send: VecDeque::new(),
             receive_max: u16::MAX as usize,
@@ -124,6 +131,8 @@ pub(crate) struct ClientSession {
     packet_stream: vaux_async::stream::PacketStream,
     last_active: std::time::Instant,
     state: SessionState,
+    // packet IDs of publishes of an earlier connection that are still to be sent again
+    resend: VecDeque<u16>,
     usable: bool,
 }
 
@@ -150,6 +159,7 @@ impl ClientSession {
             ),
             last_active: std::time::Instant::now(),
             state,
+            resend: VecDeque::new(),
             usable: true,
         })
     }
@@ -230,7 +240,7 @@ impl ClientSession {
                     match self.read_next().await {
                         Ok(Some(packet)) => match packet {
                             Packet::ConnAck(connack) => {
-                                return self.handle_connack(connack).await;
+                                return self.handle_connack(connack, clean_start).await;
                             }
                             Packet::Disconnect(disconnect) => {
                                 return Err(MqttError::new(
@@ -341,10 +351,58 @@ impl ClientSession {
                 .any(|queued| queued.packet_id() == Some(packet_id))
     }
 
-    /// Sends queued publishes, in order, up to the first that the receive maximum of the
-    /// server does not allow yet.
+    /// Ends an exchange for a message to the server.
+    async fn complete_send(&mut self, packet_id: u16) -> crate::Result<()> {
+        self.state.pending_qos_send.remove(&packet_id);
+        if self.state.qos_send_remaining < self.state.send_max {
+            self.state.qos_send_remaining += 1;
+        }
+        self.send_queued().await
+    }
+
+    /// Continues the exchanges of an earlier connection with the server.
+    async fn resume(&mut self) -> crate::Result<()> {
+        let mut pending: Vec<(u64, u16)> = self
+            .state
+            .pending_qos_send
+            .iter()
+            .map(|(packet_id, p)| (p.sequence, *packet_id))
+            .collect();
+        pending.sort_unstable();
+        for (_, packet_id) in pending {
+            match self.state.pending_qos_send[&packet_id].next {
+                QoSPacket::PubAck | QoSPacket::PubRec => self.resend.push_back(packet_id),
+                next => {
+                    self.state.qos_send_remaining =
+                        self.state.qos_send_remaining.saturating_sub(1);
+                    if self.state.auto_ack || next == QoSPacket::PubComp {
+                        self.send_pubrel(packet_id).await?;
+                    }
+                }
+            }
+        }
+        Ok(())
+    }
+
+    /// Sends the publishes of an earlier connection again and then queued publishes, in
+    /// order, up to the first that the receive maximum of the server does not allow yet.
     async fn send_queued(&mut self) -> crate::Result<()> {
-        while let Some(next) = self.state.queued_send.front() {
+        while self.state.qos_send_remaining > 0
+            && let Some(packet_id) = self.resend.pop_front()
+        {
+            if let Some(p) = self.state.pending_qos_send.get(&packet_id)
+                && let Some(Packet::Publish(publish)) = &p.packet
+            {
+                let mut publish = publish.clone();
+                publish.set_dup(true).map_err(|e| {
+                    MqttError::new(&format!("{e}"), ErrorKind::Protocol(Reason::ProtocolErr))
+                })?;
+                self.state.qos_send_remaining -= 1;
+                self.send_packet(Packet::Publish(publish)).await?;
+            }
+        }
+        while self.resend.is_empty()
+            && let Some(next) = self.state.queued_send.front() {
             if next.qos() != QoSLevel::AtMostOnce && self.state.qos_send_remaining == 0 {
                 break;
             }
@@ -366,11 +424,12 @@ impl ClientSession {
                     }
                 };
                 let packet = Packet::Publish(p.clone());
-                let pending = if p.qos() == QoSLevel::AtLeastOnce {
+                let mut pending = if p.qos() == QoSLevel::AtLeastOnce {
                     QoSPacketState::new_qos1(packet)
                 } else {
                     QoSPacketState::new_qos2(packet)
                 };
+                pending.sequence = self.next_sequence();
                 self.state.pending_qos_send.insert(packet_id, pending);
                 self.state.qos_send_remaining -= 1;
             }
@@ -390,6 +449,11 @@ impl ClientSession {
         Ok(())
     }
 
+    fn next_sequence(&mut self) -> u64 {
+        self.state.last_sequence += 1;
+        self.state.last_sequence
+    }
+
     /// Generates a packet ID that is not in use.
     fn next_packet_id(&mut self) -> u16 {
         loop {
@@ -425,9 +489,7 @@ impl ClientSession {
                 if let Some(p) = self.state.pending_qos_send.get(&puback.packet_id) {
                     match p.next {
                         QoSPacket::PubAck => {
-                            self.state.pending_qos_send.remove(&puback.packet_id);
-                            self.state.qos_send_remaining += 1;
-                            self.send_queued().await?;
+                            self.complete_send(puback.packet_id).await?;
                         }
                         _ => {
                             // protocol error, unexpected packet - disconnect
@@ -451,12 +513,12 @@ impl ClientSession {
                     match p.next {
                         QoSPacket::PubRec if is_error(pubrec) => {
                             // the server does not take the message, nothing follows
-                            self.state.pending_qos_send.remove(&packet_id);
-                            self.state.qos_send_remaining += 1;
-                            self.send_queued().await?;
+                            self.complete_send(packet_id).await?;
                         }
                         QoSPacket::PubRec => {
                             p.advance();
+                            self.state.last_sequence += 1;
+                            p.sequence = self.state.last_sequence;
                             if self.state.auto_ack {
                                 self.send_pubrel(packet_id).await?;
                             }
@@ -511,31 +573,18 @@ impl ClientSession {
                 }
             }
             Packet::PubComp(pubcomp) => {
-                let packet_id = pubcomp.packet_id;
-                if let Some(p) = self.state.pending_qos_send.remove(&packet_id) {
-                    match p.next {
-                        QoSPacket::PubComp => {
-                            // removed from pending qos
-                            self.state.qos_send_remaining += 1;
-                            self.send_queued().await?;
-                        }
-                        _ => {
-                            // protocol error, unexpected packet
-                            // re-insert into pending qos without change
-                            self.state.pending_qos_send.insert(packet_id, p);
-                            return Err(MqttError::new(
-                                "unexpected control packet",
-                                ErrorKind::Protocol(Reason::ProtocolErr),
-                            ));
-                        }
+                match self.state.pending_qos_send.get(&pubcomp.packet_id) {
+                    Some(p) if p.next == QoSPacket::PubComp => {
+                        self.complete_send(pubcomp.packet_id).await?;
+                    }
+                    _ => {
+                        // protocol error, unexpected packet
+                        // TODO disconnect
+                        return Err(MqttError::new(
+                            "unexpected packet",
+                            ErrorKind::Protocol(Reason::ProtocolErr),
+                        ));
                     }
-                } else {
-                    // protocol error, unexpected packet
-                    // TODO disconnect");
-                    return Err(MqttError::new(
-                        "unexpected packet",
-                        ErrorKind::Protocol(Reason::ProtocolErr),
-                    ));
                 }
             }
             _ => {}
@@ -547,9 +596,19 @@ impl ClientSession {
         }
     }
 
-    async fn handle_connack(&mut self, connack: ConnAck) -> crate::Result<ConnAck> {
-        let set_id = self.state.client_id.lock().await;
-        let client_id_set = set_id.is_some();
+    async fn handle_connack(
+        &mut self,
+        connack: ConnAck,
+        clean_start: bool,
+    ) -> crate::Result<ConnAck> {
+        // the server assigns an ID to a client that connects with an empty one
+        let client_id_set = self
+            .state
+            .client_id
+            .lock()
+            .await
+            .as_ref()
+            .is_some_and(|client_id| !client_id.is_empty());
         if connack.reason != Reason::Success {
             // TODO return the connack reason as MQTT error with reason code
             let mut connected = self.connected.write().await;
@@ -589,7 +648,16 @@ impl ClientSession {
             *session_expiry = Duration::from_secs(u64::from(server_session_expiry));
         }
         // set the server assigned receive maximum
-        self.state.qos_send_remaining = connack.receive_maximum.unwrap_or(u16::MAX) as usize;
+        self.state.send_max = connack.receive_maximum.unwrap_or(u16::MAX) as usize;
+        self.state.qos_send_remaining = self.state.send_max;
+        if connack.session_present() && !clean_start {
+            self.resume().await?;
+        } else {
+            // the server knows nothing of earlier exchanges
+            self.state.pending_qos_send.clear();
+            self.state.pending_qos_recv.clear();
+        }
+        self.send_queued().await?;
         Ok(connack)
     }
 
-- 
2.43.0


From 1a86a5c8eb10ff9e7d07397866ce658e70c4cee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:47 +0000
Subject: [PATCH 29/48] fix: keep-alive is measured from the last packet sent

---
 vaux-client/src/client.rs  | 10 ++++++----
 vaux-client/src/session.rs | 33 ++++++++++++++++++++-------------
 2 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/vaux-client/src/client.rs b/vaux-client/src/client.rs
index efaf3c2..598a910 100644
--- a/vaux-client/src/client.rs
+++ b/vaux-client/src/client.rs
@@ -351,7 +351,6 @@ impl MqttClient {
             {
                 *_session_expiry.write().await = session_expiry;
             }
-            let keep_alive_enabled = session.keep_alive_enabled();
             // Holds a packet that has been read off the wire (and already acked,
             // for auto-acked QoS 1/2) but could not be handed to the consumer
             // because its channel was full. While this is set, reads from the
@@ -362,8 +361,9 @@ impl MqttClient {
             // eventually drops the connection for missed keep-alives).
             let mut pending_forward: Option<Packet> = None;
             loop {
+                let next_ping = session.next_ping().await;
                 select! {
-                    _ = MqttClient::keep_alive_timer(keep_alive), if keep_alive_enabled => {
+                    _ = MqttClient::keep_alive_timer(next_ping), if next_ping.is_some() => {
                         match session.handle_keep_alive().await {
                             Ok(_) => {
                                 // do nothing
@@ -478,8 +478,10 @@ impl MqttClient {
         Ok(())
     }
 
-    async fn keep_alive_timer(keep_alive: Duration) {
-        tokio::time::sleep(keep_alive).await;
+    async fn keep_alive_timer(next_ping: Option<tokio::time::Instant>) {
+        if let Some(next_ping) = next_ping {
+            tokio::time::sleep_until(next_ping).await;
+        }
     }
 
     /// Retries delivery of a previously-undeliverable packet to its filtered
diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index 47ccd8c..b153919 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -129,7 +129,8 @@ impl SessionState {
 pub(crate) struct ClientSession {
     connected: Arc<RwLock<bool>>,
     packet_stream: vaux_async::stream::PacketStream,
-    last_active: std::time::Instant,
+    // when the last packet was sent
+    last_active: tokio::time::Instant,
     state: SessionState,
     // packet IDs of publishes of an earlier connection that are still to be sent again
     resend: VecDeque<u16>,
@@ -157,7 +158,7 @@ impl ClientSession {
                 None,
                 Some(state.max_packet_size),
             ),
-            last_active: std::time::Instant::now(),
+            last_active: tokio::time::Instant::now(),
             state,
             resend: VecDeque::new(),
             usable: true,
@@ -188,10 +189,6 @@ impl ClientSession {
         self.state.auto_ack
     }
 
-    pub(crate) fn keep_alive_enabled(&self) -> bool {
-        self.state.keep_alive_enabled
-    }
-
     pub(crate) async fn connect(
         &mut self,
         max_connect_wait: Duration,
@@ -206,7 +203,12 @@ impl ClientSession {
             ));
         }
         let mut connect = Connect::default();
-        connect.keep_alive = self.state.keep_alive.read().await.as_secs() as u16;
+        {
+            // what the server is told is what is kept
+            let mut keep_alive = self.state.keep_alive.write().await;
+            connect.keep_alive = keep_alive.as_secs().min(u64::from(u16::MAX)) as u16;
+            *keep_alive = Duration::from_secs(u64::from(connect.keep_alive));
+        }
         connect.set_clean_start(clean_start);
         {
             let set_id = self.state.client_id.lock().await;
@@ -215,7 +217,7 @@ impl ClientSession {
             }
         }
         connect
-            .set_session_expiry_interval(self.state.session_expiry.read().await.as_secs() as u32);
+            .set_session_expiry_interval(self.state.session_expiry.read().await.as_secs().min(u64::from(u32::MAX)) as u32);
         self.state.qos_recv_remaining = self.state.receive_max;
         if self.state.receive_max < u16::MAX as usize {
             connect.receive_maximum = Some(self.state.receive_max as u16);
@@ -770,14 +772,19 @@ impl ClientSession {
 
     pub(crate) async fn handle_keep_alive(&mut self) -> Result<(), MqttError> {
         let ping = Packet::PingRequest(Default::default());
-        self.send_packet(ping).await?;
-        // packet sent, update last active time
-        self.last_active = std::time::Instant::now();
-        // }
-        Ok(())
+        self.send_packet(ping).await
+    }
+
+    /// Returns when a PINGREQ is due, if nothing else is sent before.
+    pub(crate) async fn next_ping(&self) -> Option<tokio::time::Instant> {
+        let keep_alive = self.keep_alive().await;
+        // a keep alive of 0 turns it off
+        (self.state.keep_alive_enabled && !keep_alive.is_zero())
+            .then(|| self.last_active + keep_alive)
     }
 
     async fn send_packet(&mut self, mut packet: Packet) -> Result<(), MqttError> {
+        self.last_active = tokio::time::Instant::now();
         self.packet_stream
             .write(&mut packet)
             .await
-- 
2.43.0


From 3deb8e860ab8e05447af220925cd92ab6f417dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:07 +0000
Subject: [PATCH 30/48] fix: the client reads while it writes, stop is not held
 up, an undelivered message is kept

---
 vaux-async/src/stream/packet.rs |  5 ++
 vaux-client/src/client.rs       | 49 ++++++++++++------
 vaux-client/src/session.rs      | 92 +++++++++++++++++++++++++++++----
 3 files changed, 121 insertions(+), 25 deletions(-)

diff --git a/vaux-async/src/stream/packet.rs b/vaux-async/src/stream/packet.rs
index 5508717..dfad232 100644
--- a/vaux-async/src/stream/packet.rs
+++ b/vaux-async/src/stream/packet.rs
@@ -248,6 +248,11 @@ impl PacketStream {
         !self.write_buffer.is_empty() || self.needs_flush
     }
 
+    /// Returns how many bytes of queued packets have not been written.
+    pub fn queued_len(&self) -> usize {
+        self.write_buffer.len()
+    }
+
     /// Writes all queued packets.
     pub async fn flush(&mut self) -> Result<(), Error> {
         poll_fn(|cx| self.poll_write_queued(cx))
diff --git a/vaux-client/src/client.rs b/vaux-client/src/client.rs
index 598a910..248aed7 100644
--- a/vaux-client/src/client.rs
+++ b/vaux-client/src/client.rs
@@ -3,7 +3,7 @@ use crate::{ErrorKind, MqttConnection, MqttError};
 use std::fmt::Display;
 use std::{collections::HashMap, sync::Arc, time::Duration};
 use tokio::select;
-use tokio::sync::RwLock;
+use tokio::sync::{Notify, RwLock};
 use tokio::{
     sync::mpsc::{
         self,
@@ -12,6 +12,7 @@ use tokio::{
     },
     task::JoinHandle,
 };
+use vaux_async::stream::Received;
 use vaux_mqtt::{Packet, PacketType, QoSLevel, Subscribe, SubscriptionFilter};
 
 // 64K is the default max packet size
@@ -86,6 +87,7 @@ pub struct MqttClient {
     pub(crate) connection: Option<MqttConnection>,
     filter_channel: FilteredChannel,
     connected: Arc<RwLock<bool>>,
+    stop: Arc<Notify>,
     pub session_expiry: Arc<RwLock<Duration>>,
     pub keep_alive: Arc<RwLock<Duration>>,
     pub(crate) packet_in: PacketChannel,
@@ -117,6 +119,7 @@ impl MqttClient {
         Self {
             connection: None,
             connected: Arc::new(RwLock::new(false)),
+            stop: Arc::new(Notify::new()),
             session_expiry: Arc::clone(&state.session_expiry),
             filter_channel: HashMap::new(),
             packet_in: PacketChannel::new_with_size(
@@ -309,6 +312,7 @@ impl MqttClient {
         let packet_out = self.packet_out.0.clone();
         let credentials = self.connection.as_ref().unwrap().credentials().clone();
         let connected = self.connected.clone();
+        let stop = self.stop.clone();
         let filter_channel = self.filter_channel.clone();
         if let Some(connection) = self.connection.as_mut() {
             match connection.connect().await {
@@ -351,17 +355,20 @@ impl MqttClient {
             {
                 *_session_expiry.write().await = session_expiry;
             }
-            // Holds a packet that has been read off the wire (and already acked,
-            // for auto-acked QoS 1/2) but could not be handed to the consumer
-            // because its channel was full. While this is set, reads from the
-            // socket are paused so we never decode further packets the consumer
-            // has no room for; keep-alive and outbound app commands keep flowing.
+            // A packet that has been read off the wire (and already acked, for
+            // auto-acked QoS 1/2) but could not be handed to the consumer
+            // because its channel was full is kept in the session. While there
+            // is one, reads from the socket are paused so we never decode further
+            // packets the consumer has no room for; keep-alive and outbound app
+            // commands keep flowing.
             // This avoids the consumer's channel back-pressure deadlocking the
             // whole client (no further reads => no further PubAcks => the broker
             // eventually drops the connection for missed keep-alives).
-            let mut pending_forward: Option<Packet> = None;
+            let mut stopping = false;
             loop {
                 let next_ping = session.next_ping().await;
+                let undelivered = session.undelivered().cloned();
+                let reads = undelivered.is_none();
                 select! {
                     _ = MqttClient::keep_alive_timer(next_ping), if next_ping.is_some() => {
                         match session.handle_keep_alive().await {
@@ -374,10 +381,10 @@ impl MqttClient {
                             }
                         }
                     }
-                    forward_result = MqttClient::forward_pending(&filter_channel, &packet_out, pending_forward.clone()), if pending_forward.is_some() => {
+                    forward_result = MqttClient::forward_pending(&filter_channel, &packet_out, undelivered), if !reads => {
                         match forward_result {
                             Some(Ok(_)) => {
-                                pending_forward = None;
+                                session.set_undelivered(None);
                             }
                             Some(Err(e)) => {
                                 *connected.write().await = false;
@@ -386,14 +393,14 @@ impl MqttClient {
                                     session.end_session().await));
                             }
                             None => {
-                                // guard was true when checked but pending_forward was
+                                // guard was true when checked but the packet was
                                 // already cleared by the time the expression ran; no-op
                             }
                         }
                     }
-                    packet_result = session.read_next(), if pending_forward.is_none() => {
+                    packet_result = session.exchange(reads), if reads || session.has_queued() => {
                         match packet_result {
-                            Ok(Some(packet)) => {
+                            Ok(Received::Packet(packet, _)) => {
                                 match session.handle_packet(packet).await {
                                     Ok(Some(packet)) => {
                                         // check filter channels
@@ -406,10 +413,11 @@ impl MqttClient {
                                             Ok(_) => {}
                                             Err(TrySendError::Full(packet)) => {
                                                 // consumer is behind; pause reads until it catches up
-                                                pending_forward = Some(packet);
+                                                session.set_undelivered(Some(packet));
                                             }
-                                            Err(TrySendError::Closed(_)) => {
+                                            Err(TrySendError::Closed(packet)) => {
                                                 *connected.write().await = false;
+                                                session.set_undelivered(Some(packet));
                                                 return Err(ClientError::new(
                                                     MqttError::new("unable to send packet: channel closed", ErrorKind::Channel),
                                                     session.end_session().await));
@@ -425,7 +433,10 @@ impl MqttClient {
                                     }
                                 }
                             }
-                            Ok(None) => {
+                            Ok(Received::Written) => {
+                                // more can be accepted now
+                            }
+                            Ok(Received::Closed) => {
                                 // socket closed
                                 *connected.write().await = false;
                                 return Err(ClientError::new(MqttError::new("socket closed", ErrorKind::Transport), session.end_session().await));
@@ -436,7 +447,11 @@ impl MqttClient {
                             }
                         }
                     }
-                    pending_packet = packet_in_receiver.recv() => {
+                    _ = stop.notified(), if !stopping => {
+                        // accept everything up to the DISCONNECT
+                        stopping = true;
+                    }
+                    pending_packet = packet_in_receiver.recv(), if stopping || session.accepts_packets() => {
                         match pending_packet {
                             Some(inbound_packet) => {
                                 // if auto-ack and a QOS control packet, ignore
@@ -468,6 +483,8 @@ impl MqttClient {
     }
 
     pub async fn stop(&mut self) -> Result<(), MqttError> {
+        // the DISCONNECT is not held up by packets that the server does not take yet
+        self.stop.notify_one();
         let disconnect = Packet::Disconnect(Default::default());
         if let Err(e) = self.packet_in.0.send(disconnect).await {
             return Err(MqttError::new(
diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index b153919..714ea60 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -6,11 +6,12 @@ use std::{
     time::Duration,
 };
 use tokio::sync::{Mutex, RwLock};
+use vaux_async::stream::Received;
 use vaux_mqtt::WillMessage;
 use vaux_mqtt::publish::Publish;
 use vaux_mqtt::pubresp::PubResp;
 use vaux_mqtt::{
-    ConnAck, Connect, Packet, QoSLevel, Reason,
+    ConnAck, Connect, Disconnect, Packet, QoSLevel, Reason,
     codec::{CodecSize, Encode},
 };
 
@@ -18,6 +19,11 @@ const DEFAULT_MAX_PACKET_SIZE: usize = 64 * 1024;
 const DEFAULT_CLIENT_ID_PREFIX: &str = "vaux-client";
 const DEFAULT_CLIENT_KEEP_ALIVE: Duration = Duration::from_secs(60);
 const DEFAULT_SESSION_EXPIRY: Duration = Duration::from_secs(600);
+// what the application sends is not taken from its channel while more than this waits
+const MAX_QUEUED_BYTES: usize = 64 * 1024;
+const MAX_QUEUED_PUBLISHES: usize = 1024;
+// how long the server has to take what is sent before a DISCONNECT
+const MAX_STOP_WAIT: Duration = Duration::from_secs(5);
 
 #[allow(clippy::enum_variant_names)]
 #[derive(Debug, Copy, Clone, Hash, Eq, PartialEq)]
@@ -63,6 +69,13 @@ impl QoSPacketState {
     }
 }
 
+fn disconnected(disconnect: &Disconnect) -> MqttError {
+    MqttError::new(
+        &format!("disconnect received: {disconnect:?}"),
+        ErrorKind::Protocol(disconnect.reason),
+    )
+}
+
 fn is_error(response: &PubResp) -> bool {
     response.reason().is_some_and(|r| r as u8 >= 0x80)
 }
@@ -79,6 +92,8 @@ pub struct SessionState {
     pending_qos_send: HashMap<u16, QoSPacketState>,
     // publishes that wait for the server to acknowledge earlier ones, in order
     queued_send: VecDeque<Publish>,
+    // a packet from the server that the consumer has no room for
+    undelivered: Option<Packet>,
     pub(crate) receive_max: usize,
     qos_recv_remaining: usize,
     pending_qos_recv: HashMap<u16, QoSPacketState>,
@@ -112,6 +127,7 @@ impl SessionState {
             last_sequence: 0,
             pending_qos_send: HashMap::new(),
             queued_send: VecDeque::new(),
+            undelivered: None,
             receive_max: u16::MAX as usize,
             qos_recv_remaining: u16::MAX as usize,
             pending_qos_recv: HashMap::new(),
@@ -168,6 +184,12 @@ impl ClientSession {
     pub(crate) async fn end_session(&mut self) -> SessionState {
         // poison the session so that it cannot be used after the state is taken
         self.usable = false;
+        // the server does not send it again if it has been acknowledged
+        if !matches!(&self.state.undelivered, Some(Packet::Publish(p))
+            if self.state.auto_ack || p.qos() == QoSLevel::AtMostOnce)
+        {
+            self.state.undelivered = None;
+        }
         let mut session_state = SessionState::new();
         mem::swap(&mut self.state, &mut session_state);
         session_state
@@ -288,6 +310,56 @@ impl ClientSession {
         }
     }
 
+    /// Reads the next packet while writing what is queued, or only writes. Returns when
+    /// everything that was queued has been written, too. Cancel safe.
+    pub(crate) async fn exchange(&mut self, read: bool) -> crate::Result<Received> {
+        let result = if read {
+            self.packet_stream.read_or_written().await
+        } else {
+            self.packet_stream.flush().await.map(|_| Received::Written)
+        };
+        result.map_err(|e| {
+            MqttError::new(
+                &format!("unable to exchange packets: {e}"),
+                ErrorKind::Transport,
+            )
+        })
+    }
+
+    /// Returns true if there are packets that have not been written.
+    pub(crate) fn has_queued(&self) -> bool {
+        self.packet_stream.has_queued()
+    }
+
+    /// Returns true unless too much of what the application sent is still to be written.
+    pub(crate) fn accepts_packets(&self) -> bool {
+        self.packet_stream.queued_len() < MAX_QUEUED_BYTES
+            && self.state.queued_send.len() < MAX_QUEUED_PUBLISHES
+    }
+
+    /// The packet that the consumer has no room for, if there is one.
+    pub(crate) fn undelivered(&self) -> Option<&Packet> {
+        self.state.undelivered.as_ref()
+    }
+
+    pub(crate) fn set_undelivered(&mut self, packet: Option<Packet>) {
+        self.state.undelivered = packet;
+    }
+
+    /// Writes what is queued. Packets from the server are not handled any more.
+    async fn write_queued(&mut self) -> crate::Result<()> {
+        while self.packet_stream.has_queued() {
+            match self.exchange(true).await? {
+                Received::Packet(Packet::Disconnect(d), _) => return Err(disconnected(&d)),
+                Received::Packet(..) | Received::Written => {}
+                Received::Closed => {
+                    return Err(MqttError::new("socket closed", ErrorKind::Transport));
+                }
+            }
+        }
+        Ok(())
+    }
+
     /// Reads the next packet from the stream, returning None if the stream is closed.
     /// This method is cancel safe. No data is lost if the task is cancelled at the
     /// await point.
@@ -332,6 +404,11 @@ impl ClientSession {
             }
             Packet::Disconnect(d) => {
                 self.send_packet(Packet::Disconnect(d)).await?;
+                tokio::time::timeout(MAX_STOP_WAIT, self.write_queued())
+                    .await
+                    .map_err(|_| {
+                        MqttError::new("unable to write disconnect", ErrorKind::Timeout)
+                    })??;
                 // TODO handle shutdown error?
                 let _ = self.packet_stream.shutdown().await;
                 *self.connected.write().await = false;
@@ -479,10 +556,7 @@ impl ClientSession {
             Packet::Disconnect(d) => {
                 // TODO handle disconnect - verify shutdown behavior
                 let _ = self.packet_stream.shutdown().await;
-                return Err(MqttError::new(
-                    &format!("disconnect received: {d:?}"),
-                    ErrorKind::Protocol(d.reason),
-                ));
+                return Err(disconnected(d));
             }
             Packet::Publish(publish) => {
                 packet_to_consumer = self.handle_recv_publish(publish.clone()).await?;
@@ -783,11 +857,11 @@ impl ClientSession {
             .then(|| self.last_active + keep_alive)
     }
 
-    async fn send_packet(&mut self, mut packet: Packet) -> Result<(), MqttError> {
+    async fn send_packet(&mut self, packet: Packet) -> Result<(), MqttError> {
         self.last_active = tokio::time::Instant::now();
+        // written by exchange, so that the server can send while it does not take packets
         self.packet_stream
-            .write(&mut packet)
-            .await
-            .map_err(|_| MqttError::new("unable to write packet to stream", ErrorKind::Transport))
+            .queue(&packet)
+            .map_err(|e| MqttError::new(&format!("unable to encode packet: {e}"), ErrorKind::Codec))
     }
 }
-- 
2.43.0


From 66623e7fe61aca054831a2f5618059d5f6f9f09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:28 +0000
Subject: [PATCH 31/48] fix: start ends within the connection wait with the
 real reason

---
 vaux-client/src/client.rs     | 66 ++++++++++++++--------------
 vaux-client/src/connection.rs | 51 ++++++++++------------
 vaux-client/src/session.rs    | 82 +++++++++++------------------------
 3 files changed, 83 insertions(+), 116 deletions(-)

diff --git a/vaux-client/src/client.rs b/vaux-client/src/client.rs
index 248aed7..e43e89d 100644
--- a/vaux-client/src/client.rs
+++ b/vaux-client/src/client.rs
@@ -18,6 +18,7 @@ use vaux_mqtt::{Packet, PacketType, QoSLevel, Subscribe, SubscriptionFilter};
 // 64K is the default max packet size
 const MAX_CONNECT_WAIT: Duration = Duration::from_secs(5);
 const DEFAULT_CHANNEL_SIZE: u16 = 128;
+const CONNECTED_POLL: Duration = Duration::from_millis(20);
 
 pub type FilteredChannel = HashMap<PacketType, Sender<vaux_mqtt::Packet>>;
 
@@ -246,38 +247,29 @@ impl MqttClient {
         max_wait: Duration,
         clean_start: bool,
     ) -> crate::Result<JoinHandle<Result<SessionState, ClientError>>> {
-        let handle = self.start(clean_start).await;
-        match tokio::time::timeout(max_wait, {
-            async {
-                while !self.connected().await {
-                    tokio::time::sleep(std::time::Duration::from_millis(100)).await;
+        let wait = max_wait.min(self.max_connect_wait);
+        let mut handle = self.start_within(wait, clean_start).await?;
+        // the client thread ends when it is unable to connect
+        while !self.connected().await {
+            match tokio::time::timeout(CONNECTED_POLL, &mut handle).await {
+                Err(_) => {}
+                Ok(Ok(Err(e))) => {
+                    self.session_state = Some(e.state);
+                    return Err(e.mqtt_error);
                 }
-            }
-        })
-        .await
-        {
-            Ok(_) => 
-            {
-                handle
-            }
-            Err(start_err) => {
-                // if the client is connected then stop the client
-                if self.connected().await
-                    && let Err(stop_err) = self.stop().await
-                {
+                Ok(Ok(Ok(state))) => {
+                    self.session_state = Some(state);
+                    return Err(MqttError::new("client stopped", ErrorKind::Session));
+                }
+                Ok(Err(e)) => {
                     return Err(MqttError::new(
-                        &format!(
-                            "error starting: {start_err} unable to stop client: {stop_err} "
-                        ),
-                        ErrorKind::Transport,
+                        &format!("unable to connect to broker: {e}"),
+                        ErrorKind::Session,
                     ));
                 }
-                Err(MqttError::new(
-                    &format!("unable to connect to broker: {start_err}"),
-                    ErrorKind::Transport,
-                ))
             }
         }
+        Ok(handle)
     }
 
     /// Starts the MQTT client thread. The MQTT client thread will send packets
@@ -300,22 +292,26 @@ impl MqttClient {
         &mut self,
         clean_start: bool,
     ) -> Result<JoinHandle<Result<SessionState, ClientError>>, MqttError> {
+        self.start_within(self.max_connect_wait, clean_start).await
+    }
+
+    async fn start_within(
+        &mut self,
+        max_connect_wait: Duration,
+        clean_start: bool,
+    ) -> Result<JoinHandle<Result<SessionState, ClientError>>, MqttError> {
+        let deadline = tokio::time::Instant::now() + max_connect_wait;
         if self.connection.is_none() {
             return Err(MqttError::new("connection not set", ErrorKind::Connection));
         }
-        let max_connect_wait = self.max_connect_wait;
         let will_message = self.will_message.clone();
-        let mut packet_in_receiver = self.packet_in.1.take().ok_or(MqttError::new(
-            "packet_in channel closed",
-            ErrorKind::Transport,
-        ))?;
         let packet_out = self.packet_out.0.clone();
         let credentials = self.connection.as_ref().unwrap().credentials().clone();
         let connected = self.connected.clone();
         let stop = self.stop.clone();
         let filter_channel = self.filter_channel.clone();
         if let Some(connection) = self.connection.as_mut() {
-            match connection.connect().await {
+            match connection.connect_with_timeout(max_connect_wait).await {
                 Ok(c) => c,
                 Err(e) => {
                     return Err(MqttError::new(
@@ -325,6 +321,10 @@ impl MqttClient {
                 }
             };
         }
+        let mut packet_in_receiver = self.packet_in.1.take().ok_or(MqttError::new(
+            "packet_in channel closed",
+            ErrorKind::Transport,
+        ))?;
         let mut session = match ClientSession::new_from_client(self).await {
             Ok(s) => s,
             Err(e) => {
@@ -338,7 +338,7 @@ impl MqttClient {
         let _session_expiry = self.session_expiry.clone();
         Ok(tokio::spawn(async move {
             match session
-                .connect(max_connect_wait, credentials, clean_start, will_message)
+                .connect(deadline, credentials, clean_start, will_message)
                 .await
             {
                 Ok(_) => *connected.write().await = true,
diff --git a/vaux-client/src/connection.rs b/vaux-client/src/connection.rs
index c88341c..12f964b 100644
--- a/vaux-client/src/connection.rs
+++ b/vaux-client/src/connection.rs
@@ -12,7 +12,6 @@ use crate::{ErrorKind, MqttError};
 const DEFAULT_HOST: &str = "localhost";
 pub const DEFAULT_PORT: u16 = 1883;
 pub const DEFAULT_SECURE_PORT: u16 = 8883;
-const DEFAULT_CONNECTION_TIMEOUT: u64 = 30_000;
 
 pub struct MqttConnection {
     host: String,
@@ -89,13 +88,14 @@ impl MqttConnection {
         self.stream.take()
     }
 
-    pub(crate) async fn connect(&mut self) -> crate::Result<()> {
-        self.connect_with_timeout(Duration::from_millis(DEFAULT_CONNECTION_TIMEOUT))
-            .await?;
-        Ok(())
+    /// Connects within the timeout, which covers the name resolution and TLS handshake, too.
+    pub(crate) async fn connect_with_timeout(&mut self, timeout: Duration) -> crate::Result<()> {
+        tokio::time::timeout(timeout, self.connect())
+            .await
+            .map_err(|_| MqttError::new("timeout", ErrorKind::Timeout))?
     }
 
-    pub(crate) async fn connect_with_timeout(&mut self, timeout: Duration) -> crate::Result<()> {
+    async fn connect(&mut self) -> crate::Result<()> {
         // if not set via with_tls or with_port, set the port to the default
         if self.port.is_none() {
             self.port = Some(DEFAULT_PORT);
@@ -113,28 +113,25 @@ impl MqttConnection {
                 ErrorKind::Connection,
             ));
         }
-        let socket_addr = socket_addr.unwrap().next().unwrap();
-
-        match tokio::time::timeout(timeout, TcpStream::connect(&socket_addr)).await {
-            Ok(result) => match result {
-                Ok(stream) => {
-                    if self.tls {
-                        self.stream = Some(self.connect_tls(stream).await?);
-                        Ok(())
-                    } else {
-                        self.stream = Some(AsyncMqttStream(MqttStream::TcpStream(stream)));
-                        Ok(())
-                    }
+        let socket_addr = socket_addr.unwrap().next().ok_or(MqttError::new(
+            "host has no address",
+            ErrorKind::Connection,
+        ))?;
+
+        match TcpStream::connect(&socket_addr).await {
+            Ok(stream) => {
+                if self.tls {
+                    self.stream = Some(self.connect_tls(stream).await?);
+                    Ok(())
+                } else {
+                    self.stream = Some(AsyncMqttStream(MqttStream::TcpStream(stream)));
+                    Ok(())
                 }
-                Err(e) => Err(MqttError::new(
-                    &format!("unable to connect: {e}"),
-                    ErrorKind::Connection,
-                )),
-            },
-            Err(_e) => Err(MqttError {
-                message: "timeout".to_string(),
-                kind: ErrorKind::Timeout,
-            }),
+            }
+            Err(e) => Err(MqttError::new(
+                &format!("unable to connect: {e}"),
+                ErrorKind::Connection,
+            )),
         }
     }
 
diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index 714ea60..b3142ee 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -12,7 +12,6 @@ use vaux_mqtt::publish::Publish;
 use vaux_mqtt::pubresp::PubResp;
 use vaux_mqtt::{
     ConnAck, Connect, Disconnect, Packet, QoSLevel, Reason,
-    codec::{CodecSize, Encode},
 };
 
 const DEFAULT_MAX_PACKET_SIZE: usize = 64 * 1024;
@@ -213,7 +212,7 @@ impl ClientSession {
 
     pub(crate) async fn connect(
         &mut self,
-        max_connect_wait: Duration,
+        deadline: tokio::time::Instant,
         credentials: Option<(String, String)>,
         clean_start: bool,
         will: Option<WillMessage>,
@@ -252,60 +251,31 @@ impl ClientSession {
             connect.set_will_message(will);
         }
         let mut connect_packet = Packet::Connect(Box::new(connect));
-        if let Packet::Connect(ref mut boxed_connect) = connect_packet {
-            let mut dest = bytes::BytesMut::with_capacity(boxed_connect.codec_size() as usize);
-            boxed_connect.encode(&mut dest).unwrap();
-        }
-
-        match self.packet_stream.write(&mut connect_packet).await {
-            Ok(_) => {
-                let start = std::time::Instant::now();
-                while start.elapsed() < max_connect_wait {
-                    match self.read_next().await {
-                        Ok(Some(packet)) => match packet {
-                            Packet::ConnAck(connack) => {
-                                return self.handle_connack(connack, clean_start).await;
-                            }
-                            Packet::Disconnect(disconnect) => {
-                                return Err(MqttError::new(
-                                    &format!("disconnect received: {}", disconnect.reason),
-                                    ErrorKind::Protocol(disconnect.reason),
-                                ));
-                            }
-                            _ => {
-                                return Err(MqttError::new(
-                                    "unexpected packet type",
-                                    ErrorKind::Protocol(Reason::ProtocolErr),
-                                ));
-                            }
-                        },
-                        Ok(None) => {
-                            return Err(MqttError::new(
-                                "no MQTT packet received",
-                                ErrorKind::Protocol(Reason::ProtocolErr),
-                            ));
-                        }
-                        Err(e) => match e.kind {
-                            ErrorKind::Timeout => {
-                                tokio::time::sleep(Duration::from_millis(100)).await;
-                            }
-                            _ => {
-                                return Err(MqttError::new(
-                                    &format!("unable to read packet: {e}"),
-                                    ErrorKind::Transport,
-                                ));
-                            }
-                        },
-                    }
-                }
-                Err(MqttError::new(
-                    "unable to connect to broker",
-                    ErrorKind::Timeout,
-                ))
-            }
-            Err(e) => Err(MqttError::new(
-                &format!("Unable to write packet(s) to broker: {e}"),
-                ErrorKind::Transport,
+        let handshake = async {
+            self.packet_stream
+                .write(&mut connect_packet)
+                .await
+                .map_err(|e| {
+                    MqttError::new(
+                        &format!("Unable to write packet(s) to broker: {e}"),
+                        ErrorKind::Transport,
+                    )
+                })?;
+            self.read_next().await
+        };
+        let packet = tokio::time::timeout_at(deadline, handshake)
+            .await
+            .map_err(|_| MqttError::new("unable to connect to broker", ErrorKind::Timeout))??;
+        match packet {
+            Some(Packet::ConnAck(connack)) => self.handle_connack(connack, clean_start).await,
+            Some(Packet::Disconnect(disconnect)) => Err(disconnected(&disconnect)),
+            Some(_) => Err(MqttError::new(
+                "unexpected packet type",
+                ErrorKind::Protocol(Reason::ProtocolErr),
+            )),
+            None => Err(MqttError::new(
+                "no MQTT packet received",
+                ErrorKind::Protocol(Reason::ProtocolErr),
             )),
         }
     }
-- 
2.43.0


From f428a7276c97b233c253721e4f7c243b41cd9a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:38 +0000
Subject: [PATCH 32/48] fix: messages in the producer channel stay queued when
 the session ends

---
 vaux-client/src/client.rs  | 20 +++++------
 vaux-client/src/session.rs | 69 ++++++++++++++++++++++----------------
 2 files changed, 51 insertions(+), 38 deletions(-)

diff --git a/vaux-client/src/client.rs b/vaux-client/src/client.rs
index e43e89d..c8111d6 100644
--- a/vaux-client/src/client.rs
+++ b/vaux-client/src/client.rs
@@ -344,7 +344,7 @@ impl MqttClient {
                 Ok(_) => *connected.write().await = true,
                 Err(e) => {
                     *connected.write().await = false;
-                    return Err(ClientError::new(e, session.end_session().await));
+                    return Err(ClientError::new(e, session.end_session(&mut packet_in_receiver).await));
                 }
             }
             let keep_alive = session.keep_alive().await;
@@ -377,7 +377,7 @@ impl MqttClient {
                             }
                             Err(e) => {
                                 *connected.write().await = false;
-                                return Err(ClientError::new(e, session.end_session().await));
+                                return Err(ClientError::new(e, session.end_session(&mut packet_in_receiver).await));
                             }
                         }
                     }
@@ -390,7 +390,7 @@ impl MqttClient {
                                 *connected.write().await = false;
                                 return Err(ClientError::new(
                                     MqttError::new(&format!("unable to send packet: {e}"), ErrorKind::Channel),
-                                    session.end_session().await));
+                                    session.end_session(&mut packet_in_receiver).await));
                             }
                             None => {
                                 // guard was true when checked but the packet was
@@ -420,7 +420,7 @@ impl MqttClient {
                                                 session.set_undelivered(Some(packet));
                                                 return Err(ClientError::new(
                                                     MqttError::new("unable to send packet: channel closed", ErrorKind::Channel),
-                                                    session.end_session().await));
+                                                    session.end_session(&mut packet_in_receiver).await));
                                             }
                                         }
                                     }
@@ -429,7 +429,7 @@ impl MqttClient {
                                     }
                                     Err(e) => {
                                         *connected.write().await = false;
-                                        return Err(ClientError::new(e, session.end_session().await));
+                                        return Err(ClientError::new(e, session.end_session(&mut packet_in_receiver).await));
                                     }
                                 }
                             }
@@ -439,11 +439,11 @@ impl MqttClient {
                             Ok(Received::Closed) => {
                                 // socket closed
                                 *connected.write().await = false;
-                                return Err(ClientError::new(MqttError::new("socket closed", ErrorKind::Transport), session.end_session().await));
+                                return Err(ClientError::new(MqttError::new("socket closed", ErrorKind::Transport), session.end_session(&mut packet_in_receiver).await));
                             }
                             Err(e) => {
                                 *connected.write().await = false;
-                                return Err(ClientError::new(e, session.end_session().await));
+                                return Err(ClientError::new(e, session.end_session(&mut packet_in_receiver).await));
                             }
                         }
                     }
@@ -463,20 +463,20 @@ impl MqttClient {
                                     }
                                     Err(e) => {
                                         *connected.write().await = false;
-                                        return Err(ClientError::new(e, session.end_session().await));
+                                        return Err(ClientError::new(e, session.end_session(&mut packet_in_receiver).await));
                                     }
                                 }
                             }
                             None => {
                                 *connected.write().await = false;
-                                return Err(ClientError::new(MqttError::new("packet_in channel closed", ErrorKind::Transport), session.end_session().await));
+                                return Err(ClientError::new(MqttError::new("packet_in channel closed", ErrorKind::Transport), session.end_session(&mut packet_in_receiver).await));
                             }
                         }
                     }
                 };
                 if !session.connected().await {
                     *connected.write().await = false;
-                    return Ok(session.end_session().await);
+                    return Ok(session.end_session(&mut packet_in_receiver).await);
                 }
             }
         }))
diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index b3142ee..d216cea 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -5,7 +5,7 @@ use std::{
     sync::Arc,
     time::Duration,
 };
-use tokio::sync::{Mutex, RwLock};
+use tokio::sync::{Mutex, RwLock, mpsc::Receiver};
 use vaux_async::stream::Received;
 use vaux_mqtt::WillMessage;
 use vaux_mqtt::publish::Publish;
@@ -180,9 +180,18 @@ impl ClientSession {
         })
     }
 
-    pub(crate) async fn end_session(&mut self) -> SessionState {
+    /// Ends the session. Messages that are still in the channel stay queued.
+    pub(crate) async fn end_session(&mut self, packets: &mut Receiver<Packet>) -> SessionState {
         // poison the session so that it cannot be used after the state is taken
         self.usable = false;
+        packets.close();
+        while let Ok(packet) = packets.try_recv() {
+            if let Packet::Publish(p) = packet
+                && self.check_publish(&p).is_ok()
+            {
+                self.state.queued_send.push_back(p);
+            }
+        }
         // the server does not send it again if it has been acknowledged
         if !matches!(&self.state.undelivered, Some(Packet::Publish(p))
             if self.state.auto_ack || p.qos() == QoSLevel::AtMostOnce)
@@ -343,32 +352,7 @@ impl ClientSession {
     pub(crate) async fn write_next(&mut self, packet: Packet) -> Result<(), MqttError> {
         match packet {
             Packet::Publish(p) => {
-                if p.qos() != QoSLevel::AtMostOnce {
-                    // check the pending qos for available space
-                    if self.state.pending_qos_send.len() + self.state.queued_send.len()
-                        >= u16::MAX as usize
-                    {
-                        return Err(MqttError::new(
-                            "pending QoS packets full",
-                            ErrorKind::Protocol(Reason::ProtocolErr),
-                        ));
-                    }
-                    // verify client set packet ID is not already in use
-                    if let Some(packet_id) = p.packet_id() {
-                        if self.packet_id_in_use(packet_id) {
-                            return Err(MqttError::new(
-                                "packet ID already in use",
-                                ErrorKind::Protocol(Reason::MalformedPacket),
-                            ));
-                        }
-                    } else if !self.state.auto_packet_id {
-                        // if no packet ID is set and auto packet ID is disabled, return an error
-                        return Err(MqttError::new(
-                            "no packet ID for QoS > 0",
-                            ErrorKind::Protocol(Reason::MalformedPacket),
-                        ));
-                    }
-                }
+                self.check_publish(&p)?;
                 self.state.queued_send.push_back(p);
                 self.send_queued().await
             }
@@ -391,6 +375,35 @@ impl ClientSession {
         }
     }
 
+    fn check_publish(&self, p: &Publish) -> crate::Result<()> {
+        if p.qos() == QoSLevel::AtMostOnce {
+            return Ok(());
+        }
+        // check the pending qos for available space
+        if self.state.pending_qos_send.len() + self.state.queued_send.len() >= u16::MAX as usize {
+            return Err(MqttError::new(
+                "pending QoS packets full",
+                ErrorKind::Protocol(Reason::ProtocolErr),
+            ));
+        }
+        // verify client set packet ID is not already in use
+        if let Some(packet_id) = p.packet_id() {
+            if self.packet_id_in_use(packet_id) {
+                return Err(MqttError::new(
+                    "packet ID already in use",
+                    ErrorKind::Protocol(Reason::MalformedPacket),
+                ));
+            }
+        } else if !self.state.auto_packet_id {
+            // if no packet ID is set and auto packet ID is disabled, return an error
+            return Err(MqttError::new(
+                "no packet ID for QoS > 0",
+                ErrorKind::Protocol(Reason::MalformedPacket),
+            ));
+        }
+        Ok(())
+    }
+
     fn packet_id_in_use(&self, packet_id: u16) -> bool {
         self.state.pending_qos_send.contains_key(&packet_id)
             || self
-- 
2.43.0


From d26e3c82d72b8f70c85c4db93db0f2875dd80db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:01 +0000
Subject: [PATCH 33/48] fix: the receive maximum counts exchanges that a
 resumed session continues

---
 vaux-client/src/session.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index d216cea..1fde68b 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -86,7 +86,6 @@ pub struct SessionState {
     pub(crate) session_expiry: Arc<RwLock<Duration>>,
 
     send_max: usize,
-    qos_send_remaining: usize,
     last_sequence: u64,
     pending_qos_send: HashMap<u16, QoSPacketState>,
     // publishes that wait for the server to acknowledge earlier ones, in order
@@ -122,7 +121,6 @@ impl SessionState {
             keep_alive: Arc::new(RwLock::new(DEFAULT_CLIENT_KEEP_ALIVE)),
             session_expiry: Arc::new(RwLock::new(DEFAULT_SESSION_EXPIRY)),
             send_max: u16::MAX as usize,
-            qos_send_remaining: u16::MAX as usize,
             last_sequence: 0,
             pending_qos_send: HashMap::new(),
             queued_send: VecDeque::new(),
@@ -413,12 +411,20 @@ impl ClientSession {
                 .any(|queued| queued.packet_id() == Some(packet_id))
     }
 
+    /// The number of QoS publishes that the receive maximum of the server leaves.
+    fn send_quota(&self) -> usize {
+        let in_flight = self
+            .state
+            .pending_qos_send
+            .len()
+            .saturating_sub(self.resend.len());
+        self.state.send_max.saturating_sub(in_flight)
+    }
+
     /// Ends an exchange for a message to the server.
     async fn complete_send(&mut self, packet_id: u16) -> crate::Result<()> {
         self.state.pending_qos_send.remove(&packet_id);
-        if self.state.qos_send_remaining < self.state.send_max {
-            self.state.qos_send_remaining += 1;
-        }
+        self.resend.retain(|resend| *resend != packet_id);
         self.send_queued().await
     }
 
@@ -435,8 +441,6 @@ impl ClientSession {
             match self.state.pending_qos_send[&packet_id].next {
                 QoSPacket::PubAck | QoSPacket::PubRec => self.resend.push_back(packet_id),
                 next => {
-                    self.state.qos_send_remaining =
-                        self.state.qos_send_remaining.saturating_sub(1);
                     if self.state.auto_ack || next == QoSPacket::PubComp {
                         self.send_pubrel(packet_id).await?;
                     }
@@ -449,7 +453,7 @@ impl ClientSession {
     /// Sends the publishes of an earlier connection again and then queued publishes, in
     /// order, up to the first that the receive maximum of the server does not allow yet.
     async fn send_queued(&mut self) -> crate::Result<()> {
-        while self.state.qos_send_remaining > 0
+        while self.send_quota() > 0
             && let Some(packet_id) = self.resend.pop_front()
         {
             if let Some(p) = self.state.pending_qos_send.get(&packet_id)
@@ -459,13 +463,12 @@ impl ClientSession {
                 publish.set_dup(true).map_err(|e| {
                     MqttError::new(&format!("{e}"), ErrorKind::Protocol(Reason::ProtocolErr))
                 })?;
-                self.state.qos_send_remaining -= 1;
                 self.send_packet(Packet::Publish(publish)).await?;
             }
         }
         while self.resend.is_empty()
             && let Some(next) = self.state.queued_send.front() {
-            if next.qos() != QoSLevel::AtMostOnce && self.state.qos_send_remaining == 0 {
+            if next.qos() != QoSLevel::AtMostOnce && self.send_quota() == 0 {
                 break;
             }
             let Some(mut p) = self.state.queued_send.pop_front() else {
@@ -493,7 +496,6 @@ impl ClientSession {
                 };
                 pending.sequence = self.next_sequence();
                 self.state.pending_qos_send.insert(packet_id, pending);
-                self.state.qos_send_remaining -= 1;
             }
             self.send_packet(Packet::Publish(p)).await?;
         }
@@ -708,7 +710,6 @@ impl ClientSession {
         }
         // set the server assigned receive maximum
         self.state.send_max = connack.receive_maximum.unwrap_or(u16::MAX) as usize;
-        self.state.qos_send_remaining = self.state.send_max;
         if connack.session_present() && !clean_start {
             self.resume().await?;
         } else {
-- 
2.43.0


From c1cff4a2fa7afdd18ac8cf9805f65df3b5d5770b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:25 +0000
Subject: [PATCH 34/48] fix: the broker respects the receive maximum of the
 client

---
 vaux-broker/src/lib.rs     |  6 ++++--
 vaux-broker/src/session.rs | 26 ++++++++++++++++++++++----
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index f5272a2..eade1a3 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -331,7 +331,7 @@ impl Broker {
     async fn handle_packet(
         packet: Packet,
         stream: &mut PacketStream,
-        handle: &SessionHandle,
+        handle: &mut SessionHandle,
         state: &BrokerState,
     ) -> Result<bool, BrokerError> {
         match packet {
@@ -380,6 +380,7 @@ impl Broker {
                 Ok(true)
             }
             Packet::PubAck(puback) => {
+                handle.acknowledged(puback.packet_id);
                 let mut session = handle.session.write().await;
                 if session.is_attached(handle) {
                     session.acknowledge(puback.packet_id);
@@ -600,7 +601,8 @@ impl Broker {
             session.session_expiry = session_expiry;
         }
         // from here on the session ends with this connection, even if the CONNACK fails
-        *client = SessionHandle::attach(&session).await;
+        let receive_maximum = connect.receive_maximum.unwrap_or(u16::MAX).max(1);
+        *client = SessionHandle::attach(&session, receive_maximum).await;
         drop(session_pool);
         tracing::info!(session_id = %session_id, "client connected");
         stream.queue(&Packet::ConnAck(ack))?;
diff --git a/vaux-broker/src/session.rs b/vaux-broker/src/session.rs
index b7714bd..01be5c1 100644
--- a/vaux-broker/src/session.rs
+++ b/vaux-broker/src/session.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::{HashMap, VecDeque},
+    collections::{HashMap, HashSet, VecDeque},
     sync::Arc,
     time::{Duration, Instant},
 };
@@ -203,13 +203,16 @@ pub(crate) struct SessionHandle {
     pub session_id: String,
     control: Receiver<SessionControl>,
     redeliver: VecDeque<(u64, u16)>,
+    // what the client has been sent and has not acknowledged, at most the receive maximum
+    in_flight: HashSet<u16>,
+    receive_maximum: u16,
     epoch: u64,
     kick: watch::Receiver<Option<Reason>>,
 }
 
 impl SessionHandle {
     /// Attaches the calling connection to the session.
-    pub async fn attach(session: &Arc<RwLock<Session>>) -> Option<Self> {
+    pub async fn attach(session: &Arc<RwLock<Session>>, receive_maximum: u16) -> Option<Self> {
         let mut guard = session.write().await;
         let control = guard.take_control_receiver()?;
         Some(SessionHandle {
@@ -218,15 +221,24 @@ impl SessionHandle {
             control,
             // deliveries from here on go through the control channel
             redeliver: guard.unacknowledged(),
+            in_flight: HashSet::new(),
+            receive_maximum,
             epoch: guard.epoch,
             kick: guard.kick.subscribe(),
         })
     }
 
+    /// The client has acknowledged a delivery, there is room for another one.
+    pub fn acknowledged(&mut self, packet_id: u16) {
+        self.in_flight.remove(&packet_id);
+    }
+
     /// Waits for something to do for the connection. Once it has been told to end it is given
-    /// nothing else to do. Deliveries are held back unless `deliver` is set.
+    /// nothing else to do. Deliveries are held back unless `deliver` is set, and while the
+    /// receive maximum of the client is reached.
     pub async fn next_control(&mut self, deliver: bool) -> SessionControl {
-        tokio::select! {
+        let deliver = deliver && self.in_flight.len() < self.receive_maximum as usize;
+        let control = tokio::select! {
             biased;
             kick = self.kick.wait_for(|reason| reason.is_some()) => {
                 let reason = kick.ok().and_then(|reason| *reason);
@@ -237,7 +249,13 @@ impl SessionHandle {
                 &mut self.redeliver,
                 &mut self.control
             ), if deliver => control,
+        };
+        if let SessionControl::Deliver(publish) = &control
+            && let Some(packet_id) = publish.packet_id()
+        {
+            self.in_flight.insert(packet_id);
         }
+        control
     }
 
     // what is new follows when everything has been redelivered
-- 
2.43.0


From e753f2a76ffe7c4843afcce7c3a6c3dec12ae80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:25 +0000
Subject: [PATCH 35/48] fix: a session state whose keep-alive the server has
 lowered can be used again

---
 vaux-client/src/builder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vaux-client/src/builder.rs b/vaux-client/src/builder.rs
index f4c8309..3d912cb 100644
--- a/vaux-client/src/builder.rs
+++ b/vaux-client/src/builder.rs
@@ -31,6 +31,8 @@ pub struct ClientBuilder {
     filtered_consumer: Option<HashMap<PacketType, Sender<vaux_mqtt::Packet>>>,
     error_out: Option<Sender<MqttError>>,
     will_message: Option<WillMessage>,
+    // the keep alive of a session state may be what a server asked for
+    keep_alive_set: bool,
 }
 
 impl Default for ClientBuilder {
@@ -43,6 +45,7 @@ impl Default for ClientBuilder {
             filtered_consumer: None,
             error_out: None,
             will_message: None,
+            keep_alive_set: false,
         }
     }
 }
@@ -58,6 +61,7 @@ impl ClientBuilder {
     pub fn with_state(mut self, connection: MqttConnection, state: SessionState) -> Self {
         self.connection = connection;
         self.state = state;
+        self.keep_alive_set = false;
         self
     }
 
@@ -114,6 +118,7 @@ impl ClientBuilder {
     /// broker may assume that the client is no longer connected close the connection.
     pub fn with_keep_alive(mut self, keep_alive: Duration) -> Self {
         self.state.keep_alive = Arc::new(RwLock::new(keep_alive));
+        self.keep_alive_set = true;
         self
     }
 
@@ -186,7 +191,7 @@ impl ClientBuilder {
 
     pub async fn build(self) -> Result<crate::MqttClient, BuilderError> {
         let keep_alive = self.state.keep_alive.read().await;
-        if *keep_alive < MIN_KEEP_ALIVE {
+        if self.keep_alive_set && *keep_alive < MIN_KEEP_ALIVE {
             return Err(BuilderError::MinKeepAlive);
         }
         drop(keep_alive);
-- 
2.43.0


From c5fb9bcd60d085a9efaf0e6856001d1b6bef7dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:10 +0000
Subject: [PATCH 36/48] fix: UNSUBACK reports a subscription that does not
 exist with reason 0x11

---
 vaux-broker/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index eade1a3..89b7ea9 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -438,7 +438,7 @@ impl Broker {
             let reason = if tree.unsubscribe(topic, session_id) {
                 Reason::Success
             } else {
-                Reason::NoSubscribers
+                Reason::NoSubscriptionExisted
             };
             unsuback.reason_code.push(reason);
         }
-- 
2.43.0


From d4712925acdffe4f9c23af412e43788f5673aced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:24 +0000
Subject: [PATCH 37/48] fix: a will is published with its user properties

---
 vaux-broker/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 89b7ea9..cdfc585 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -654,6 +654,7 @@ impl Broker {
         publish.content_type = will.header.content_type.clone();
         publish.response_topic = will.header.response_topic.clone();
         publish.correlation_data = will.header.correlation_data.clone();
+        publish.user_properties = will.header.user_properties.clone();
         if let Some(format) = will.header.payload_format {
             publish.set_payload_format(format);
         }
-- 
2.43.0


From c2658450b195cd3f249de832eae467dec20a5690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:54 +0000
Subject: [PATCH 38/48] fix: user properties keep the order in which they were
 added

---
 vaux-mqtt/src/property.rs | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/vaux-mqtt/src/property.rs b/vaux-mqtt/src/property.rs
index e05ce50..1d2d439 100644
--- a/vaux-mqtt/src/property.rs
+++ b/vaux-mqtt/src/property.rs
@@ -147,12 +147,16 @@ impl TryFrom<u8> for PropertyType {
 }
 
 #[derive(Debug, Default, Clone, PartialEq, Eq)]
-pub struct UserProperty(HashMap<String, Vec<String>>);
+pub struct UserProperty {
+    values: HashMap<String, Vec<String>>,
+    /// the names in the order in which the pairs were added (MQTTv5 3.3.2.3.7)
+    order: Vec<String>,
+}
 
 impl codec::PropertyCodecSize for UserProperty {
     fn property_size(&self) -> u32 {
         let mut size = 0;
-        for (key, values) in &self.0 {
+        for (key, values) in &self.values {
             for value in values {
                 size += 1; // Property identifier
                 size += 2 + key.len() as u32; // Key length + key
@@ -165,12 +169,15 @@ impl codec::PropertyCodecSize for UserProperty {
 
 impl codec::Encode for UserProperty {
     fn encode(&self, dest: &mut BytesMut) -> Result<(), MqttCodecError> {
-        for (key, values) in &self.0 {
-            for value in values {
+        let mut next: HashMap<&str, usize> = HashMap::new();
+        for key in &self.order {
+            let index = next.entry(key).or_default();
+            if let Some(value) = self.values.get(key).and_then(|values| values.get(*index)) {
                 dest.put_u8(PropertyType::UserProperty as u8);
                 encode_string(key, dest)?;
                 encode_string(value, dest)?;
             }
+            *index += 1;
         }
         Ok(())
     }
@@ -183,41 +190,44 @@ impl codec::Decode for UserProperty {
         let (key_value, key_len) = codec::decode_string(src)?;
         let (value, len) = codec::decode_string(src)?;
         let bytes_read = key_len + len;
-        self.0.entry(key_value).or_default().push(value);
+        self.add(key_value, value);
         Ok(bytes_read)
     }
 }
 
 impl UserProperty {
     pub fn new() -> Self {
-        UserProperty(HashMap::new())
+        UserProperty::default()
     }
 
     pub fn clear(&mut self) {
-        self.0.clear();
+        self.values.clear();
+        self.order.clear();
     }
 
     pub fn clear_codec(&mut self, key: &str) {
-        self.0.remove(key);
+        self.values.remove(key);
+        self.order.retain(|name| name != key);
     }
 
     pub fn add(&mut self, key: String, value: String) {
-        self.0.entry(key).or_default().push(value);
+        self.order.push(key.clone());
+        self.values.entry(key).or_default().push(value);
     }
 
     pub fn get(&self, key: &str) -> Option<&Vec<String>> {
-        self.0.get(key)
+        self.values.get(key)
     }
 
     pub fn iter(&self) -> impl Iterator<Item = (&String, &Vec<String>)> {
-        self.0.iter()
+        self.values.iter()
     }
 
     pub fn is_empty(&self) -> bool {
-        self.0.is_empty()
+        self.values.is_empty()
     }
 
     pub fn len(&self) -> usize {
-        self.0.len()
+        self.values.len()
     }
 }
-- 
2.43.0


From 319fc558bc2ce3ac07e12f58337b39f805b46fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:56 +0000
Subject: [PATCH 39/48] fix: a CONNACK with reserved acknowledge flags set is
 malformed

---
 vaux-mqtt/src/codec/mod.rs | 5 +++++
 vaux-mqtt/src/connack.rs   | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index 36c3621..3b744b4 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -552,6 +552,11 @@ fn decode_body(
         PacketType::ConnAck => {
             let mut connack = ConnAck::default();
             decode_len += connack.decode(src)?;
+            if connack.has_reserved_flags() {
+                return Err(MqttCodecError::new(
+                    "malformed packet: reserved connect acknowledge flags are set",
+                ));
+            }
             Ok(Some((Packet::ConnAck(connack), decode_len)))
         }
         PacketType::Subscribe => {
diff --git a/vaux-mqtt/src/connack.rs b/vaux-mqtt/src/connack.rs
index b17695f..5b34914 100644
--- a/vaux-mqtt/src/connack.rs
+++ b/vaux-mqtt/src/connack.rs
@@ -53,6 +53,12 @@ impl ConnAck {
         (self.ack_flags & CONNACK_SESSION_PRESENT_MASK) != 0
     }
 
+    /// Returns true if any of the reserved acknowledge flags, bits 7 to 1, is set.
+    /// The MQTT specification requires them to be 0.
+    pub(crate) fn has_reserved_flags(&self) -> bool {
+        (self.ack_flags & !CONNACK_SESSION_PRESENT_MASK) != 0
+    }
+
     /// Sets the session present flag in the CONNACK packet.
     pub fn set_session_present(&mut self, present: bool) {
         if present {
-- 
2.43.0


From a99aba075909e1ece1dc3488e2f7cff78994b100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:01 +0000
Subject: [PATCH 40/48] fix: a CONNECT for another protocol or protocol version
 is not read as MQTT 5

---
 vaux-mqtt/src/connect.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vaux-mqtt/src/connect.rs b/vaux-mqtt/src/connect.rs
index 3e125d7..461f4f5 100644
--- a/vaux-mqtt/src/connect.rs
+++ b/vaux-mqtt/src/connect.rs
@@ -197,6 +197,14 @@ impl codec::Decode for Connect {
         bytes_read += self.protocol_name.decode(src)?;
         self.protocol_version = src.try_get_u8()?;
         bytes_read += 1;
+        if self.protocol_name != MQTT_PROTOCOL_NAME
+            || self.protocol_version != MQTT_PROTOCOL_VERSION
+        {
+            return Err(MqttCodecError::new(&format!(
+                "unsupported protocol: {} version {}",
+                self.protocol_name, self.protocol_version
+            )));
+        }
         self.connect_flags = src.try_get_u8()?;
         bytes_read += 1;
         self.keep_alive = src.try_get_u16()?;
-- 
2.43.0


From 30acfd18a3c24c708de74453c93a700d7e4513c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:07 +0000
Subject: [PATCH 41/48] fix: properties that overrun the property length are
 malformed

---
 vaux-macro/src/decode.rs | 3 +++
 vaux-mqtt/src/connect.rs | 5 +++++
 vaux-mqtt/src/publish.rs | 5 +++++
 3 files changed, 13 insertions(+)

diff --git a/vaux-macro/src/decode.rs b/vaux-macro/src/decode.rs
index 4796807..f68e1b6 100644
--- a/vaux-macro/src/decode.rs
+++ b/vaux-macro/src/decode.rs
@@ -95,6 +95,9 @@ pub(crate) fn decode_internal(input: TokenStream) -> TokenStream {
                     }
                 }
             }
+            if property_bytes_read != property_length {
+                return Err(codec::MqttCodecError::new("properties exceed the property length"));
+            }
             bytes_read += property_bytes_read;
         }
     } else {
diff --git a/vaux-mqtt/src/connect.rs b/vaux-mqtt/src/connect.rs
index 461f4f5..4b65849 100644
--- a/vaux-mqtt/src/connect.rs
+++ b/vaux-mqtt/src/connect.rs
@@ -270,6 +270,11 @@ impl codec::Decode for Connect {
                 }
             }
         }
+        if property_bytes_read != property_length {
+            return Err(codec::MqttCodecError::new(
+                "properties exceed the property length",
+            ));
+        }
         bytes_read += property_bytes_read;
 
         // payload: client_id (always present)
diff --git a/vaux-mqtt/src/publish.rs b/vaux-mqtt/src/publish.rs
index 1eeca8c..e2ed46b 100644
--- a/vaux-mqtt/src/publish.rs
+++ b/vaux-mqtt/src/publish.rs
@@ -345,6 +345,11 @@ impl codec::Decode for Publish {
                 }
             }
         }
+        if property_bytes_read != property_length {
+            return Err(codec::MqttCodecError::new(
+                "properties exceed the property length",
+            ));
+        }
         bytes_read += property_bytes_read;
 
         let (value, decode_bytes_read) = codec::decode_opt_vec_u8_raw(src)?;
-- 
2.43.0


From a4af4b287b7b8d7f58477746b87c0982ec5e7830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:48 +0000
Subject: [PATCH 42/48] fix: an empty user name or password is sent with the
 CONNECT

---
 vaux-mqtt/src/connect.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/vaux-mqtt/src/connect.rs b/vaux-mqtt/src/connect.rs
index 4b65849..bfca958 100644
--- a/vaux-mqtt/src/connect.rs
+++ b/vaux-mqtt/src/connect.rs
@@ -53,10 +53,11 @@ pub struct Connect {
     pub(crate) will_topic: Option<String>,
     #[codec(payload_type = "field")]
     pub(crate) will_payload: Option<Vec<u8>>,
-    #[codec(skip_if = "String::is_empty", payload_type = "field")]
-    username: String,
-    #[codec(skip_if = "Vec::is_empty", payload_type = "field")]
-    password: Vec<u8>,
+    // present, though perhaps empty, if their flags are set
+    #[codec(payload_type = "field")]
+    username: Option<String>,
+    #[codec(payload_type = "field")]
+    password: Option<Vec<u8>>,
 }
 
 impl Default for Connect {
@@ -91,8 +92,8 @@ impl Connect {
             will_properties: None,
             will_topic: None,
             will_payload: None,
-            username: String::new(),
-            password: Vec::new(),
+            username: None,
+            password: None,
         }
     }
 
@@ -140,7 +141,7 @@ impl Connect {
         } else {
             self.connect_flags = (self.connect_flags & !CONNECT_FLAG_USERNAME) | 1_u8 << 7;
         }
-        self.username = username.unwrap_or_default();
+        self.username = username;
     }
 
     pub fn password(&self) -> bool {
@@ -153,7 +154,7 @@ impl Connect {
         } else {
             self.connect_flags = (self.connect_flags & !CONNECT_FLAG_PASSWORD) | 1_u8 << 6;
         }
-        self.password = password.unwrap_or_default();
+        self.password = password;
     }
 
     pub fn set_session_expiry_interval(&mut self, interval: u32) {
@@ -298,7 +299,9 @@ impl codec::Decode for Connect {
 
         // payload: username (only if USERNAME flag set)
         if self.username() {
-            bytes_read += self.username.decode(src)?;
+            let mut value = String::default();
+            bytes_read += value.decode(src)?;
+            self.username = Some(value);
         }
 
         // payload: password (only if PASSWORD flag set)
@@ -306,7 +309,7 @@ impl codec::Decode for Connect {
             let mut value = Vec::new();
             let var_bytes_read = value.decode(src)?;
             bytes_read += var_bytes_read;
-            self.password = value;
+            self.password = Some(value);
         }
 
         Ok(bytes_read)
-- 
2.43.0


From ac7d0f84698be29cfe34eb6c6d0680bf997fa008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:47 +0000
Subject: [PATCH 43/48] fix: with TLS, the client's shutdown does not wait for
 a server that does not read

---
 vaux-client/src/session.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index 1fde68b..9ff6b68 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -362,7 +362,7 @@ impl ClientSession {
                         MqttError::new("unable to write disconnect", ErrorKind::Timeout)
                     })??;
                 // TODO handle shutdown error?
-                let _ = self.packet_stream.shutdown().await;
+                self.shutdown().await;
                 *self.connected.write().await = false;
                 Ok(())
             }
@@ -529,6 +529,12 @@ impl ClientSession {
         }
     }
 
+    /// Shuts the stream down without waiting for a server that does not read: with TLS there
+    /// is something to write, too.
+    async fn shutdown(&mut self) {
+        let _ = tokio::time::timeout(MAX_STOP_WAIT, self.packet_stream.shutdown()).await;
+    }
+
     pub(crate) async fn handle_packet(
         &mut self,
         packet: Packet,
@@ -540,7 +546,7 @@ impl ClientSession {
             }
             Packet::Disconnect(d) => {
                 // TODO handle disconnect - verify shutdown behavior
-                let _ = self.packet_stream.shutdown().await;
+                self.shutdown().await;
                 return Err(disconnected(d));
             }
             Packet::Publish(publish) => {
@@ -729,7 +735,7 @@ impl ClientSession {
         }
         let Some(packet_id) = publish.packet_id() else {
             // TODO send disconnect with reason cod
-            let _ = self.packet_stream.shutdown().await;
+            self.shutdown().await;
             return Err(MqttError::new(
                 "protocol error, packet ID required with QoS > 0",
                 ErrorKind::Protocol(Reason::MalformedPacket),
-- 
2.43.0


From f8f9251cb6433347f30a99fb07b5f5df279aa007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:07 +0000
Subject: [PATCH 44/48] fix: a TLS handshake is not waited for without limit

---
 vaux-broker/src/lib.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index cdfc585..05b9164 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -172,14 +172,19 @@ impl Broker {
                                         let tls = client_state.config.tls_acceptor.clone();
                                         tokio::spawn(async move {
                                             let mqtt_stream = if let Some(acceptor) = tls {
-                                                match acceptor.accept(socket).await {
-                                                    Ok(tls_stream) => {
+                                                // a client that does not speak is not waited for
+                                                match tokio::time::timeout(DEFAULT_KEEP_ALIVE, acceptor.accept(socket)).await {
+                                                    Ok(Ok(tls_stream)) => {
                                                         MqttStream::ServerTlsStream(Box::new(tls_stream))
                                                     }
-                                                    Err(e) => {
+                                                    Ok(Err(e)) => {
                                                         tracing::warn!(error = %e, "TLS handshake failed");
                                                         return Ok(());
                                                     }
+                                                    Err(_) => {
+                                                        tracing::warn!("TLS handshake timed out");
+                                                        return Ok(());
+                                                    }
                                                 }
                                             } else {
                                                 MqttStream::TcpStream(socket)
-- 
2.43.0


From 734ec54a5bdc1d8ae2c74701f4ab3b3c48d042ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:07 +0000
Subject: [PATCH 45/48] fix: with TLS, closing a connection does not wait for a
 client that does not read

---
 vaux-broker/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 05b9164..b19cb8c 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -302,9 +302,13 @@ impl Broker {
 
     /// Closes the connection without waiting for a client that does not read.
     async fn close(stream: &mut PacketStream) -> Result<(), BrokerError> {
-        if let Ok(result) = tokio::time::timeout(DISCONNECT_TIMEOUT, stream.flush()).await {
+        let end = async {
+            stream.flush().await?;
+            // with TLS there is something to write, too
+            stream.shutdown().await
+        };
+        if let Ok(result) = tokio::time::timeout(DISCONNECT_TIMEOUT, end).await {
             result?;
-            stream.shutdown().await?;
         }
         Ok(())
     }
-- 
2.43.0


From 4b18d4df11f061b55ce94fc949e9c49e449e29d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:57 +0000
Subject: [PATCH 46/48] fix: a keep-alive of 0 turns the keep-alive off where
 the broker allows it

---
 vaux-broker/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index b19cb8c..f4ed032 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -619,6 +619,10 @@ impl Broker {
     }
 
     async fn keep_alive_timer(last_packet: Instant, keep_alive: Duration) {
+        if keep_alive.is_zero() {
+            // the client has turned the keep-alive off
+            return std::future::pending().await;
+        }
         tokio::time::sleep_until(last_packet + keep_alive).await;
     }
 
-- 
2.43.0


From e24efe4c912e4f7cf02909c5f3d8be38ce4993d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:57 +0000
Subject: [PATCH 47/48] fix: a CONNACK can say that the session expiry interval
 is 0

---
 vaux-mqtt/src/connack.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/vaux-mqtt/src/connack.rs b/vaux-mqtt/src/connack.rs
index 5b34914..20ecdef 100644
--- a/vaux-mqtt/src/connack.rs
+++ b/vaux-mqtt/src/connack.rs
@@ -69,10 +69,7 @@ impl ConnAck {
     }
 
     pub fn set_session_expiry(&mut self, interval: u32) {
-        if interval == 0 {
-            self.session_expiry_interval = None;
-            return;
-        }
+        // an interval of 0 is not the same as none: without it, what the client has asked for holds
         self.session_expiry_interval = Some(interval);
     }
 
-- 
2.43.0


From 51ba0d9fc0ae787e5b32a62b9c1982c86b8d940b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:57 +0000
Subject: [PATCH 48/48] fix: limits of the configuration beyond what the
 protocol can express are not cut to small ones

---
 vaux-broker/src/lib.rs     | 3 ++-
 vaux-broker/src/session.rs | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index f4ed032..03c7bca 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -521,7 +521,8 @@ impl Broker {
             if requested_expiry > 0 {
                 let max_expiry: u32;
                 {
-                    max_expiry = state.session_pool.read().await.session_expiry().as_secs() as u32;
+                    let limit = state.session_pool.read().await.session_expiry().as_secs();
+                    max_expiry = limit.min(u32::MAX as u64) as u32;
                 }
                 if requested_expiry > max_expiry {
                     ack.set_session_expiry(max_expiry);
diff --git a/vaux-broker/src/session.rs b/vaux-broker/src/session.rs
index 01be5c1..b63ff39 100644
--- a/vaux-broker/src/session.rs
+++ b/vaux-broker/src/session.rs
@@ -40,11 +40,11 @@ impl SessionPool {
     }
 
     pub fn default_keep_alive_secs(&self) -> u16 {
-        self.default_keep_alive.as_secs() as u16
+        self.default_keep_alive.as_secs().min(u16::MAX as u64) as u16
     }
 
     pub fn max_keep_alive_secs(&self) -> u16 {
-        self.max_keep_alive.as_secs() as u16
+        self.max_keep_alive.as_secs().min(u16::MAX as u64) as u16
     }
 
     pub fn session_expiry(&self) -> Duration {
-- 
2.43.0

