From a38e8c3869d0f09664e3c49765c210d0d2218555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:46 +0000
Subject: [PATCH 01/79] fix: accept four byte variable byte integers when
 decoding

---
 vaux-mqtt/src/codec/mod.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index 68c55fa..987cf89 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -718,6 +718,12 @@ pub fn decode_variable_byte_int(src: &mut BytesMut) -> Result<(u32, usize), Mqtt
         if next_byte & 0x80 == 0 {
             decode = false;
         } else {
+            // a variable byte integer is at most four bytes
+            if shift > 21 {
+                return Err(MqttCodecError::new(
+                    "malformed packet: variable byte integer",
+                ));
+            }
             if !src.has_remaining() {
                 return Err(MqttCodecError::new_with_kind(
                     "Insufficient data for variable byte integer",
@@ -726,11 +732,6 @@ pub fn decode_variable_byte_int(src: &mut BytesMut) -> Result<(u32, usize), Mqtt
             }
             next_byte = src.get_u8();
         }
-        if shift > 21 {
-            return Err(MqttCodecError::new(
-                "malformed packet: variable byte integer",
-            ));
-        }
     }
     Ok((result, shift / 7))
 }
-- 
2.43.0


From 4638c1149ad0373c2cd3502597518299ec7329ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:46 +0000
Subject: [PATCH 02/79] fix: reject variable byte integers above the protocol
 maximum when encoding

---
 vaux-mqtt/src/codec/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index 987cf89..a11c377 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -737,6 +737,11 @@ pub fn decode_variable_byte_int(src: &mut BytesMut) -> Result<(u32, usize), Mqtt
 }
 
 pub fn encode_variable_byte_int(val: u32, dest: &mut BytesMut) -> Result<(), MqttCodecError> {
+    if val > MAX_VARIABLE_BYTE_INT {
+        return Err(MqttCodecError::new(
+            "variable byte integer exceeds max value",
+        ));
+    }
     let mut encode = true;
     let mut input_val = val;
     while encode {
-- 
2.43.0


From 9c784f134496f49d1fd577868db26d7b38b3e921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:46 +0000
Subject: [PATCH 03/79] fix: count decoded user property bytes once

---
 vaux-mqtt/src/property.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vaux-mqtt/src/property.rs b/vaux-mqtt/src/property.rs
index e697cd3..6f7e25b 100644
--- a/vaux-mqtt/src/property.rs
+++ b/vaux-mqtt/src/property.rs
@@ -181,7 +181,8 @@ impl codec::Decode for UserProperty {
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
         let (key_value, key_len) = codec::decode_string(src)?;
         let (value, len) = codec::decode_string(src)?;
-        let bytes_read = 2 + key_len + 2 + len;
+        // the lengths already include the two byte length prefixes
+        let bytes_read = key_len + len;
         self.0.entry(key_value).or_default().push(value);
         Ok(bytes_read)
     }
-- 
2.43.0


From 580b7798d462f166d9864a74828896679d0bfcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:46 +0000
Subject: [PATCH 04/79] fix: count binary data properties against the property
 length when decoding

---
 vaux-macro/src/decode.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/vaux-macro/src/decode.rs b/vaux-macro/src/decode.rs
index 500599f..1e23e9a 100644
--- a/vaux-macro/src/decode.rs
+++ b/vaux-macro/src/decode.rs
@@ -430,8 +430,13 @@ fn decode_for_vec(
     field_name: &syn::Ident,
     type_path: &syn::TypePath,
     optional_field: bool,
-    _property_type: &Option<syn::Path>,
+    property_type: &Option<syn::Path>,
 ) -> proc_macro2::TokenStream {
+    let read = if property_type.is_some() {
+        quote! { property_bytes_read }
+    } else {
+        quote! { bytes_read }
+    };
     let decode_stmt = match &type_path.path.segments.last().unwrap().arguments {
         syn::PathArguments::AngleBracketed(args) => match args.args.first().unwrap() {
             syn::GenericArgument::Type(syn::Type::Path(vec_inner_type_path)) => {
@@ -449,14 +454,14 @@ fn decode_for_vec(
                             quote! {
                                 let mut value = Vec::new();
                                 let var_bytes_read = value.decode(src)?;
-                                bytes_read += var_bytes_read;  
+                                #read += var_bytes_read;
                                 self.#field_name = Some(value);
                             }
                         } else {
                             quote! {
                                 let mut value = Vec::new();
                                 let var_bytes_read = value.decode(src)?;
-                                bytes_read += var_bytes_read;
+                                #read += var_bytes_read;
                                 self.#field_name = value;
                             }
                         }
-- 
2.43.0


From afdcc00b23354d3bb7305bb22ba8b87e126cc9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:46 +0000
Subject: [PATCH 05/79] fix: keep the packet type of decoded PUBACK, PUBREC,
 PUBREL and PUBCOMP packets

---
 vaux-mqtt/src/codec/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index a11c377..a5a510c 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -487,22 +487,22 @@ pub fn decode(src: &mut BytesMut) -> Result<Option<(Packet, usize)>, MqttCodecEr
             Ok(Some((Packet::Publish(publish), decode_len)))
         }
         PacketType::PubAck => {
-            let mut puback = PubAck::default();
+            let mut puback = PubAck::new_with_fixed_header(fixed_header)?;
             decode_len += puback.decode(src)?;
             Ok(Some((Packet::PubAck(puback), decode_len)))
         }
         PacketType::PubComp => {
-            let mut pubcomp = PubComp::default();
+            let mut pubcomp = PubComp::new_with_fixed_header(fixed_header)?;
             decode_len += pubcomp.decode(src)?;
             Ok(Some((Packet::PubComp(pubcomp), decode_len)))
         }
         PacketType::PubRec => {
-            let mut pubrec = PubRec::default();
+            let mut pubrec = PubRec::new_with_fixed_header(fixed_header)?;
             decode_len += pubrec.decode(src)?;
             Ok(Some((Packet::PubRec(pubrec), decode_len)))
         }
         PacketType::PubRel => {
-            let mut pubrel = PubRel::default();
+            let mut pubrel = PubRel::new_with_fixed_header(fixed_header)?;
             decode_len += pubrel.decode(src)?;
             Ok(Some((Packet::PubRel(pubrel), decode_len)))
         }
-- 
2.43.0


From a6236c51e106ab5b1b2774bddb709482642b3879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:46 +0000
Subject: [PATCH 06/79] fix: decode acknowledgements and DISCONNECT with a
 reason code and no property length

---
 vaux-macro/src/decode.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vaux-macro/src/decode.rs b/vaux-macro/src/decode.rs
index 1e23e9a..9e6cd62 100644
--- a/vaux-macro/src/decode.rs
+++ b/vaux-macro/src/decode.rs
@@ -205,6 +205,7 @@ pub(crate) fn decode_internal(input: TokenStream) -> TokenStream {
                 #(#header_field_decoded)*
                 #abbreviated_check
                 #(#non_abbreviated_header_decoded)*
+                #abbreviated_check
                 #min_size_check
                 #decode_properties
                 #(#decode_field_payload)*
-- 
2.43.0


From bcab40e650a4f4e17f4959d39683c576e0dfcaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:46 +0000
Subject: [PATCH 07/79] fix: reject PUBLISH packets with an invalid QoS when
 decoding

---
 vaux-mqtt/src/codec/fixed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vaux-mqtt/src/codec/fixed.rs b/vaux-mqtt/src/codec/fixed.rs
index c967acc..932067c 100644
--- a/vaux-mqtt/src/codec/fixed.rs
+++ b/vaux-mqtt/src/codec/fixed.rs
@@ -132,7 +132,7 @@ impl Decode for FixedHeader {
             }
             _ => {}
         }
-        self.flags = flags;
+        self.set_flags(flags)?;
         Ok(1)
     }
 }
-- 
2.43.0


From ae4f94adb252b5cabeb9ee0026b6b7ae0052e4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:15 +0000
Subject: [PATCH 08/79] fix: encode CONNECT will, user name and password fields
 in protocol order even when empty

---
 vaux-mqtt/src/connect.rs | 42 +++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/vaux-mqtt/src/connect.rs b/vaux-mqtt/src/connect.rs
index 6ac087d..1266694 100644
--- a/vaux-mqtt/src/connect.rs
+++ b/vaux-mqtt/src/connect.rs
@@ -49,14 +49,14 @@ pub struct Connect {
     pub client_id: String,
     #[codec(payload_type = "field")]
     pub(crate) will_properties: Option<WillHeader>,
-    #[codec(payload_type = "field", skip_if = "Vec::is_empty")]
-    pub(crate) will_payload: Vec<u8>,
     #[codec(payload_type = "field")]
     pub(crate) will_topic: Option<String>,
-    #[codec(skip_if = "String::is_empty", payload_type = "field")]
-    username: String,
-    #[codec(skip_if = "Vec::is_empty", payload_type = "field")]
-    password: Vec<u8>,
+    #[codec(payload_type = "field")]
+    pub(crate) will_payload: Option<Vec<u8>>,
+    #[codec(payload_type = "field")]
+    username: Option<String>,
+    #[codec(payload_type = "field")]
+    password: Option<Vec<u8>>,
 }
 
 impl Default for Connect {
@@ -89,10 +89,10 @@ impl Connect {
             user_properties: property::UserProperty::new(),
             client_id: uuid::Uuid::new_v4().to_string(),
             will_properties: None,
-            will_payload: Vec::new(),
             will_topic: None,
-            username: String::new(),
-            password: Vec::new(),
+            will_payload: None,
+            username: None,
+            password: None,
         }
     }
 
@@ -140,7 +140,7 @@ impl Connect {
         } else {
             self.connect_flags = (self.connect_flags & !CONNECT_FLAG_USERNAME) | 1_u8 << 7;
         }
-        self.username = username.unwrap_or_default();
+        self.username = username;
     }
 
     pub fn password(&self) -> bool {
@@ -153,7 +153,7 @@ impl Connect {
         } else {
             self.connect_flags = (self.connect_flags & !CONNECT_FLAG_PASSWORD) | 1_u8 << 6;
         }
-        self.password = password.unwrap_or_default();
+        self.password = password;
     }
 
     pub fn set_session_expiry_interval(&mut self, interval: u32) {
@@ -168,7 +168,7 @@ impl Connect {
         if self.will() {
             Some(WillMessage {
                 topic: self.will_topic.clone().unwrap_or_default(),
-                payload: bytes::Bytes::from(self.will_payload.clone()),
+                payload: bytes::Bytes::from(self.will_payload.clone().unwrap_or_default()),
                 qos: self.will_qos().unwrap_or(QoSLevel::AtMostOnce),
                 retain: self.will_retain(),
                 header: self.will_properties.clone().unwrap_or_default(),
@@ -180,7 +180,7 @@ impl Connect {
 
     pub fn set_will_message(&mut self, will: WillMessage) {
         self.will_topic = Some(will.topic);
-        self.will_payload = will.payload.to_vec();
+        self.will_payload = Some(will.payload.to_vec());
         self.will_properties = Some(will.header);
         self.set_will(true);
         self.set_will_qos(will.qos);
@@ -273,19 +273,21 @@ impl codec::Decode for Connect {
             bytes_read += will_header.decode(src)?;
             self.will_properties = Some(will_header);
 
-            let mut value = Vec::new();
-            let var_bytes_read = value.decode(src)?;
-            bytes_read += var_bytes_read;
-            self.will_payload = value;
-
             let mut value = String::default();
             bytes_read += value.decode(src)?;
             self.will_topic = Some(value);
+
+            let mut value = Vec::new();
+            let var_bytes_read = value.decode(src)?;
+            bytes_read += var_bytes_read;
+            self.will_payload = Some(value);
         }
 
         // payload: username (only if USERNAME flag set)
         if self.username() {
-            bytes_read += self.username.decode(src)?;
+            let mut value = String::default();
+            bytes_read += value.decode(src)?;
+            self.username = Some(value);
         }
 
         // payload: password (only if PASSWORD flag set)
@@ -293,7 +295,7 @@ impl codec::Decode for Connect {
             let mut value = Vec::new();
             let var_bytes_read = value.decode(src)?;
             bytes_read += var_bytes_read;
-            self.password = value;
+            self.password = Some(value);
         }
 
         Ok(bytes_read)
-- 
2.43.0


From d93105230e67dd6b0ee26c5873dba67b1e938e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:15 +0000
Subject: [PATCH 09/79] fix: drop the packet identifier and DUP flag when a
 PUBLISH is set to QoS 0

---
 vaux-mqtt/src/publish.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vaux-mqtt/src/publish.rs b/vaux-mqtt/src/publish.rs
index bbd2b09..507d916 100644
--- a/vaux-mqtt/src/publish.rs
+++ b/vaux-mqtt/src/publish.rs
@@ -198,6 +198,11 @@ impl Publish {
 
     pub fn set_qos(&mut self, qos: QoSLevel) {
         self.fixed_header.set_qos(qos);
+        if qos == QoSLevel::AtMostOnce {
+            // MQTTv5 3.3.1.1 and 3.3.2.2 neither DUP nor a packet identifier at QoS 0
+            self.fixed_header.set_dup(false);
+            self.packet_id = None;
+        }
     }
 
     pub fn with_qos(mut self, qos: QoSLevel) -> Self {
-- 
2.43.0


From fde96e7bc85c707fa0c0570ab91e1ca02c92a855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:39 +0000
Subject: [PATCH 10/79] fix: report truncated packets as errors instead of
 panicking while decoding

---
 vaux-macro/src/decode.rs   | 19 ++++++++++++++++---
 vaux-mqtt/src/codec/mod.rs | 21 +++++++++++++++------
 vaux-mqtt/src/connect.rs   | 16 ++++++++--------
 vaux-mqtt/src/publish.rs   |  8 ++++----
 4 files changed, 43 insertions(+), 21 deletions(-)

diff --git a/vaux-macro/src/decode.rs b/vaux-macro/src/decode.rs
index 9e6cd62..8eb3697 100644
--- a/vaux-macro/src/decode.rs
+++ b/vaux-macro/src/decode.rs
@@ -83,7 +83,7 @@ pub(crate) fn decode_internal(input: TokenStream) -> TokenStream {
             bytes_read += var_bytes_read;
             let mut property_bytes_read = 0_usize;
             while property_bytes_read < property_length {
-                let property_type = src.get_u8().try_into()?;
+                let property_type = src.try_get_u8()?.try_into()?;
                 property_bytes_read += 1;
                 match property_type {
                     #(#property_field_decode)*
@@ -283,12 +283,25 @@ pub(crate) fn decode_field(field: &syn::Field) -> proc_macro2::TokenStream {
                     }
                     type_name => {
                         if is_primitive_type(type_name) {
-                            decode_for_primitive(
+                            let primitive = decode_for_primitive(
                                 field_name,
                                 &inner_field_type,
                                 optional_field,
                                 &property_type,
-                            )
+                            );
+                            // the buffer must hold the whole value before it is read
+                            quote! {
+                                if src.remaining() < core::mem::size_of::<#inner_field_type>() {
+                                    return Err(codec::MqttCodecError::new_with_kind(
+                                        "Insufficient data",
+                                        codec::ErrorKind::InsufficientData(
+                                            core::mem::size_of::<#inner_field_type>(),
+                                            src.remaining(),
+                                        ),
+                                    ));
+                                }
+                                #primitive
+                            }
                         } else {
                             decode_for_type(
                                 field_name,
diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index a5a510c..7c82279 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -223,7 +223,7 @@ impl Encode for Reason {
 
 impl Decode for Reason {
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
-        let val = src.get_u8();
+        let val = src.try_get_u8()?;
         *self = val.try_into()?;
         Ok(1)
     }
@@ -286,7 +286,7 @@ impl Encode for QoSLevel {
 
 impl Decode for QoSLevel {
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
-        let val = src.get_u8();
+        let val = src.try_get_u8()?;
         *self = val.try_into()?;
         Ok(1)
     }
@@ -413,6 +413,15 @@ impl From<std::io::Error> for MqttCodecError {
     }
 }
 
+impl From<bytes::TryGetError> for MqttCodecError {
+    fn from(err: bytes::TryGetError) -> Self {
+        MqttCodecError::new_with_kind(
+            &err.to_string(),
+            ErrorKind::InsufficientData(err.requested, err.available),
+        )
+    }
+}
+
 impl std::error::Error for MqttCodecError {}
 
 impl MqttCodecError {
@@ -608,7 +617,7 @@ impl Decode for Vec<u8> {
 
 impl Decode for bool {
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
-        *self = match src.get_u8() {
+        *self = match src.try_get_u8()? {
             0 => Ok(false),
             1 => Ok(true),
             v => Err(MqttCodecError::new(&format!(
@@ -622,21 +631,21 @@ impl Decode for bool {
 
 impl Decode for u8 {
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
-        *self = src.get_u8();
+        *self = src.try_get_u8()?;
         Ok(1)
     }
 }
 
 impl Decode for u16 {
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
-        *self = src.get_u16();
+        *self = src.try_get_u16()?;
         Ok(2)
     }
 }
 
 impl Decode for u32 {
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
-        *self = src.get_u32();
+        *self = src.try_get_u32()?;
         Ok(4)
     }
 }
diff --git a/vaux-mqtt/src/connect.rs b/vaux-mqtt/src/connect.rs
index 1266694..df40ded 100644
--- a/vaux-mqtt/src/connect.rs
+++ b/vaux-mqtt/src/connect.rs
@@ -195,11 +195,11 @@ impl codec::Decode for Connect {
 
         // header fields
         bytes_read += self.protocol_name.decode(src)?;
-        self.protocol_version = src.get_u8();
+        self.protocol_version = src.try_get_u8()?;
         bytes_read += 1;
-        self.connect_flags = src.get_u8();
+        self.connect_flags = src.try_get_u8()?;
         bytes_read += 1;
-        self.keep_alive = src.get_u16();
+        self.keep_alive = src.try_get_u16()?;
         bytes_read += 2;
 
         // properties
@@ -208,7 +208,7 @@ impl codec::Decode for Connect {
         bytes_read += var_bytes_read;
         let mut property_bytes_read = 0_usize;
         while property_bytes_read < property_length {
-            let property_type: PropertyType = src.get_u8().try_into()?;
+            let property_type: PropertyType = src.try_get_u8()?.try_into()?;
             property_bytes_read += 1;
             match property_type {
                 PropertyType::SessionExpiryInterval => {
@@ -217,7 +217,7 @@ impl codec::Decode for Connect {
                     self.session_expiry_interval = Some(value);
                 }
                 PropertyType::RecvMax => {
-                    self.receive_maximum = Some(src.get_u16());
+                    self.receive_maximum = Some(src.try_get_u16()?);
                     property_bytes_read += 2;
                 }
                 PropertyType::MaxPacketSize => {
@@ -226,15 +226,15 @@ impl codec::Decode for Connect {
                     self.max_packet_size = Some(value);
                 }
                 PropertyType::TopicAliasMax => {
-                    self.topic_alias_maximum = Some(src.get_u16());
+                    self.topic_alias_maximum = Some(src.try_get_u16()?);
                     property_bytes_read += 2;
                 }
                 PropertyType::ReqRespInfo => {
-                    self.request_response_info = Some(src.get_u8() != 0);
+                    self.request_response_info = Some(src.try_get_u8()? != 0);
                     property_bytes_read += 1;
                 }
                 PropertyType::ReqProblemInfo => {
-                    self.request_problem_info = Some(src.get_u8() != 0);
+                    self.request_problem_info = Some(src.try_get_u8()? != 0);
                     property_bytes_read += 1;
                 }
                 PropertyType::AuthMethod => {
diff --git a/vaux-mqtt/src/publish.rs b/vaux-mqtt/src/publish.rs
index 507d916..862bfe7 100644
--- a/vaux-mqtt/src/publish.rs
+++ b/vaux-mqtt/src/publish.rs
@@ -35,7 +35,7 @@ impl codec::Encode for PayloadFormat {
 
 impl codec::Decode for PayloadFormat {
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
-        *self = PayloadFormat::try_from(src.get_u8())?;
+        *self = PayloadFormat::try_from(src.try_get_u8()?)?;
         Ok(1)
     }
 }
@@ -289,7 +289,7 @@ impl codec::Decode for Publish {
         bytes_read += self.topic_name.decode(src)?;
 
         if self.fixed_header.qos() != QoSLevel::AtMostOnce {
-            self.packet_id = Some(src.get_u16());
+            self.packet_id = Some(src.try_get_u16()?);
             bytes_read += 2;
         }
 
@@ -298,7 +298,7 @@ impl codec::Decode for Publish {
         bytes_read += var_bytes_read;
         let mut property_bytes_read = 0_usize;
         while property_bytes_read < property_length {
-            let property_type: PropertyType = src.get_u8().try_into()?;
+            let property_type: PropertyType = src.try_get_u8()?.try_into()?;
             property_bytes_read += 1;
             match property_type {
                 PropertyType::MessageExpiry => {
@@ -312,7 +312,7 @@ impl codec::Decode for Publish {
                     self.payload_format = Some(value);
                 }
                 PropertyType::TopicAlias => {
-                    self.topic_alias = Some(src.get_u16());
+                    self.topic_alias = Some(src.try_get_u16()?);
                     property_bytes_read += 2;
                 }
                 PropertyType::ResponseTopic => {
-- 
2.43.0


From ec6f541e82372ce7c009ab4d1af30fbdefca5c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:48 +0000
Subject: [PATCH 11/79] fix: make the decoder report each packet's exact length
 and reject incomplete or trailing packet data

---
 vaux-mqtt/src/codec/mod.rs | 73 +++++++++++++++++++++++---------------
 1 file changed, 44 insertions(+), 29 deletions(-)

diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index 7c82279..6516d79 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -479,71 +479,86 @@ pub fn decode(src: &mut BytesMut) -> Result<Option<(Packet, usize)>, MqttCodecEr
         }
         _ => {}
     }
+    // the packet is complete: running out of data or not using all of it is malformed
+    let packet = decode_packet(fixed_header, src).map_err(|e| match e.kind {
+        ErrorKind::InsufficientData(_, _) => MqttCodecError::new(&e.reason),
+        _ => e,
+    })?;
+    if src.has_remaining() {
+        return Err(MqttCodecError::new(&format!(
+            "malformed packet: {} unexpected bytes at end of packet",
+            src.remaining()
+        )));
+    }
+    Ok(Some((packet, decode_len + packet_remaining as usize)))
+}
+
+fn decode_packet(
+    fixed_header: FixedHeader,
+    src: &mut BytesMut,
+) -> Result<Packet, MqttCodecError> {
     match fixed_header.packet_type {
-        PacketType::PingReq => Ok(Some((Packet::PingRequest(crate::PingReq::default()), decode_len))),
-        PacketType::PingResp => Ok(Some((
-            Packet::PingResponse(crate::PingResp::default()),
-            decode_len,
-        ))),
+        PacketType::PingReq => Ok(Packet::PingRequest(crate::PingReq::default())),
+        PacketType::PingResp => Ok(Packet::PingResponse(crate::PingResp::default())),
         PacketType::Connect => {
             let mut connect = Connect::new();
-            decode_len += connect.decode(src)?;
-            Ok(Some((Packet::Connect(Box::new(connect)), decode_len)))
+            connect.decode(src)?;
+            Ok(Packet::Connect(Box::new(connect)))
         }
         PacketType::Publish => {
             let mut publish = Publish::new_from_header(fixed_header)?;
-            decode_len += publish.decode(src)?;
-            Ok(Some((Packet::Publish(publish), decode_len)))
+            publish.decode(src)?;
+            Ok(Packet::Publish(publish))
         }
         PacketType::PubAck => {
             let mut puback = PubAck::new_with_fixed_header(fixed_header)?;
-            decode_len += puback.decode(src)?;
-            Ok(Some((Packet::PubAck(puback), decode_len)))
+            puback.decode(src)?;
+            Ok(Packet::PubAck(puback))
         }
         PacketType::PubComp => {
             let mut pubcomp = PubComp::new_with_fixed_header(fixed_header)?;
-            decode_len += pubcomp.decode(src)?;
-            Ok(Some((Packet::PubComp(pubcomp), decode_len)))
+            pubcomp.decode(src)?;
+            Ok(Packet::PubComp(pubcomp))
         }
         PacketType::PubRec => {
             let mut pubrec = PubRec::new_with_fixed_header(fixed_header)?;
-            decode_len += pubrec.decode(src)?;
-            Ok(Some((Packet::PubRec(pubrec), decode_len)))
+            pubrec.decode(src)?;
+            Ok(Packet::PubRec(pubrec))
         }
         PacketType::PubRel => {
             let mut pubrel = PubRel::new_with_fixed_header(fixed_header)?;
-            decode_len += pubrel.decode(src)?;
-            Ok(Some((Packet::PubRel(pubrel), decode_len)))
+            pubrel.decode(src)?;
+            Ok(Packet::PubRel(pubrel))
         }
         PacketType::Disconnect => {
             let mut disconnect = Disconnect::default();
-            decode_len += disconnect.decode(src)?;
-            Ok(Some((Packet::Disconnect(disconnect), decode_len)))
+            disconnect.decode(src)?;
+            Ok(Packet::Disconnect(disconnect))
         }
         PacketType::ConnAck => {
             let mut connack = ConnAck::default();
-            decode_len += connack.decode(src)?;
-            Ok(Some((Packet::ConnAck(connack), decode_len)))
+            connack.decode(src)?;
+            Ok(Packet::ConnAck(connack))
         }
         PacketType::Subscribe => {
             let mut subscribe = Subscribe::default();
-            decode_len += subscribe.decode(src)?;
-            Ok(Some((Packet::Subscribe(subscribe), decode_len)))
+            subscribe.decode(src)?;
+            Ok(Packet::Subscribe(subscribe))
         }
         PacketType::SubAck => {
             let mut suback = SubAck::default();
-            decode_len += suback.decode(src)?;
-            Ok(Some((Packet::SubAck(suback), decode_len)))
+            suback.decode(src)?;
+            Ok(Packet::SubAck(suback))
         }
         PacketType::Unsubscribe => {
             let mut unsubscribe = Unsubscribe::default();
-            decode_len += unsubscribe.decode(src)?;
-            Ok(Some((Packet::Unsubscribe(unsubscribe), decode_len)))
+            unsubscribe.decode(src)?;
+            Ok(Packet::Unsubscribe(unsubscribe))
         }
         PacketType::UnsubAck => {
             let mut unsuback = UnsubAck::default();
-            decode_len += unsuback.decode(src)?;
-            Ok(Some((Packet::UnsubAck(unsuback), decode_len)))
+            unsuback.decode(src)?;
+            Ok(Packet::UnsubAck(unsuback))
         }
         _ => Err(MqttCodecError::new("unsupported packet type")),
     }
-- 
2.43.0


From 518e2f3c98abf73924e53984b4cb368cae7d0b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:14 +0000
Subject: [PATCH 12/79] fix: reject packets whose properties do not match the
 declared property length

---
 vaux-macro/src/decode.rs | 5 +++++
 vaux-mqtt/src/connect.rs | 5 +++++
 vaux-mqtt/src/publish.rs | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/vaux-macro/src/decode.rs b/vaux-macro/src/decode.rs
index 8eb3697..ff49a2a 100644
--- a/vaux-macro/src/decode.rs
+++ b/vaux-macro/src/decode.rs
@@ -95,6 +95,11 @@ pub(crate) fn decode_internal(input: TokenStream) -> TokenStream {
                     }
                 }
             }
+            if property_bytes_read != property_length {
+                return Err(codec::MqttCodecError::new(
+                    "malformed packet: property length does not match properties",
+                ));
+            }
             bytes_read += property_bytes_read;
         }
     } else {
diff --git a/vaux-mqtt/src/connect.rs b/vaux-mqtt/src/connect.rs
index df40ded..2376ac1 100644
--- a/vaux-mqtt/src/connect.rs
+++ b/vaux-mqtt/src/connect.rs
@@ -262,6 +262,11 @@ impl codec::Decode for Connect {
                 }
             }
         }
+        if property_bytes_read != property_length {
+            return Err(codec::MqttCodecError::new(
+                "malformed packet: property length does not match properties",
+            ));
+        }
         bytes_read += property_bytes_read;
 
         // payload: client_id (always present)
diff --git a/vaux-mqtt/src/publish.rs b/vaux-mqtt/src/publish.rs
index 862bfe7..16ad765 100644
--- a/vaux-mqtt/src/publish.rs
+++ b/vaux-mqtt/src/publish.rs
@@ -350,6 +350,11 @@ impl codec::Decode for Publish {
                 }
             }
         }
+        if property_bytes_read != property_length {
+            return Err(codec::MqttCodecError::new(
+                "malformed packet: property length does not match properties",
+            ));
+        }
         bytes_read += property_bytes_read;
 
         let (value, decode_bytes_read) = codec::decode_opt_vec_u8_raw(src)?;
-- 
2.43.0


From a7a64f4af731aeaef242c8b7d7a5b93a0ef1b00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:37 +0000
Subject: [PATCH 13/79] fix: keep the order of user properties when encoding

---
 vaux-mqtt/src/property.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/vaux-mqtt/src/property.rs b/vaux-mqtt/src/property.rs
index 6f7e25b..53034a3 100644
--- a/vaux-mqtt/src/property.rs
+++ b/vaux-mqtt/src/property.rs
@@ -146,8 +146,20 @@ impl TryFrom<u8> for PropertyType {
     }
 }
 
-#[derive(Debug, Default, Clone, PartialEq, Eq)]
-pub struct UserProperty(HashMap<String, Vec<String>>);
+#[derive(Debug, Default, Clone)]
+pub struct UserProperty(
+    HashMap<String, Vec<String>>,
+    /// keys in the order their values were added, MQTTv5 3.3.2.3.7
+    Vec<String>,
+);
+
+impl PartialEq for UserProperty {
+    fn eq(&self, other: &Self) -> bool {
+        self.0 == other.0
+    }
+}
+
+impl Eq for UserProperty {}
 
 impl codec::PropertyCodecSize for UserProperty {
     fn property_size(&self) -> u32 {
@@ -165,12 +177,15 @@ impl codec::PropertyCodecSize for UserProperty {
 
 impl codec::Encode for UserProperty {
     fn encode(&self, dest: &mut BytesMut) -> Result<(), MqttCodecError> {
-        for (key, values) in &self.0 {
-            for value in values {
+        let mut encoded: HashMap<&str, usize> = HashMap::new();
+        for key in &self.1 {
+            let next = encoded.entry(key).or_default();
+            if let Some(value) = self.0.get(key).and_then(|values| values.get(*next)) {
                 dest.put_u8(PropertyType::UserProperty as u8);
                 encode_string(key, dest)?;
                 encode_string(value, dest)?;
             }
+            *next += 1;
         }
         Ok(())
     }
@@ -183,25 +198,28 @@ impl codec::Decode for UserProperty {
         let (value, len) = codec::decode_string(src)?;
         // the lengths already include the two byte length prefixes
         let bytes_read = key_len + len;
-        self.0.entry(key_value).or_default().push(value);
+        self.add(key_value, value);
         Ok(bytes_read)
     }
 }
 
 impl UserProperty {
     pub fn new() -> Self {
-        UserProperty(HashMap::new())
+        UserProperty(HashMap::new(), Vec::new())
     }
 
     pub fn clear(&mut self) {
         self.0.clear();
+        self.1.clear();
     }
 
     pub fn clear_codec(&mut self, key: &str) {
         self.0.remove(key);
+        self.1.retain(|k| k != key);
     }
 
     pub fn add(&mut self, key: String, value: String) {
+        self.1.push(key.clone());
         self.0.entry(key).or_default().push(value);
     }
 
-- 
2.43.0


From 33f0cf0253e2d95aa7b25d201ec433810da6db32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:38 +0000
Subject: [PATCH 14/79] fix: consume the packet returned by a raw packet read

---
 vaux-async/src/stream/packet.rs | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/vaux-async/src/stream/packet.rs b/vaux-async/src/stream/packet.rs
index a4a2924..9f8ffc1 100644
--- a/vaux-async/src/stream/packet.rs
+++ b/vaux-async/src/stream/packet.rs
@@ -30,7 +30,6 @@ impl Display for Error {
 pub struct PacketStream {
     read_buffer: Vec<u8>,
     read_offset: usize,
-    initial_buffer_size: usize,
     max_buffer_size: usize,
     stream: AsyncMqttStream,
 }
@@ -44,7 +43,6 @@ impl PacketStream {
         Self {
             read_buffer: vec![0; initial_buffer_size.unwrap_or(READ_BUFFER_SIZE)],
             read_offset: 0,
-            initial_buffer_size: initial_buffer_size.unwrap_or(READ_BUFFER_SIZE),
             max_buffer_size: max_buffer_size.unwrap_or(MAX_BUFFER_SIZE),
             stream,
         }
@@ -98,24 +96,16 @@ impl PacketStream {
                 match decode(bytes_mut) {
                     Ok(data_read) => {
                         if let Some((packet, decode_len)) = data_read {
-                            if with_bytes {
-                                // split the buffer into packet and remaining bytes
-                                let packet_bytes = bytes_mut.split_to(decode_len);
-                                // resize the buffer if less than requested initial size
-                                if self.read_buffer.len() < self.initial_buffer_size {
-                                    self.read_buffer.resize(self.initial_buffer_size, 0);
-                                }
-                                return Ok(Some((packet, Some(packet_bytes.freeze()))));
+                            let packet_bytes = with_bytes
+                                .then(|| Bytes::copy_from_slice(&self.read_buffer[..decode_len]));
+                            if decode_len < bytes_read {
+                                self.read_buffer.copy_within(decode_len..bytes_read, 0);
+                                // adjust offset to end of decoded bytes
+                                self.read_offset = bytes_read - decode_len;
                             } else {
-                                if decode_len < bytes_read {
-                                    self.read_buffer.copy_within(decode_len..bytes_read, 0);
-                                    // adjust offset to end of decoded bytes
-                                    self.read_offset = bytes_read - decode_len;
-                                } else {
-                                    self.read_offset = 0;
-                                }
-                                return Ok(Some((packet, None)));
+                                self.read_offset = 0;
                             }
+                            return Ok(Some((packet, packet_bytes)));
                         } else {
                             return Ok(None);
                         }
-- 
2.43.0


From 74a84357f2d260f3cae0fe830f7d553b03cb967c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:39 +0000
Subject: [PATCH 15/79] fix: never let the read buffer shrink below the bytes
 already read

---
 vaux-async/src/stream/packet.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vaux-async/src/stream/packet.rs b/vaux-async/src/stream/packet.rs
index 9f8ffc1..cc6809e 100644
--- a/vaux-async/src/stream/packet.rs
+++ b/vaux-async/src/stream/packet.rs
@@ -40,10 +40,14 @@ impl PacketStream {
         initial_buffer_size: Option<usize>,
         max_buffer_size: Option<usize>,
     ) -> Self {
+        let max_buffer_size = max_buffer_size.unwrap_or(MAX_BUFFER_SIZE);
+        let initial_buffer_size = initial_buffer_size
+            .unwrap_or(READ_BUFFER_SIZE)
+            .min(max_buffer_size);
         Self {
-            read_buffer: vec![0; initial_buffer_size.unwrap_or(READ_BUFFER_SIZE)],
+            read_buffer: vec![0; initial_buffer_size],
             read_offset: 0,
-            max_buffer_size: max_buffer_size.unwrap_or(MAX_BUFFER_SIZE),
+            max_buffer_size,
             stream,
         }
     }
-- 
2.43.0


From 0ce8c5cf55053d54b9e4284b0f660fcd9553b90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:41 +0000
Subject: [PATCH 16/79] fix: report a connection closed inside a packet instead
 of spinning

---
 vaux-async/src/stream/packet.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vaux-async/src/stream/packet.rs b/vaux-async/src/stream/packet.rs
index cc6809e..c0f89cb 100644
--- a/vaux-async/src/stream/packet.rs
+++ b/vaux-async/src/stream/packet.rs
@@ -134,8 +134,12 @@ impl PacketStream {
                 .await
             {
                 Ok(len) => {
-                    if len == 0 && bytes_read == 0 {
-                        return Ok(None);
+                    if len == 0 {
+                        if bytes_read == 0 {
+                            return Ok(None);
+                        }
+                        // closed with an incomplete packet in the buffer
+                        return Err(Error::Io(std::io::ErrorKind::UnexpectedEof.into()));
                     }
                     bytes_read += len;
                     self.read_offset = bytes_read;
-- 
2.43.0


From e0c42640b2de4c0e3c85aa96b56277d20c7d016b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:18 +0000
Subject: [PATCH 17/79] fix: wait for session control messages without spinning

---
 vaux-broker/src/lib.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index e5d7343..46b2d3d 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -14,7 +14,7 @@ use tokio::{
     net::TcpListener,
     select,
     sync::{mpsc::Receiver, mpsc::Sender, RwLock},
-    task::{yield_now, JoinHandle},
+    task::JoinHandle,
 };
 use topic::TopicTree;
 use uuid::Uuid;
@@ -428,14 +428,13 @@ impl Broker {
     async fn handle_control(
         control_channel: &mut Option<Receiver<SessionControl>>,
     ) -> Option<SessionControl> {
-        loop {
-            if let Some(rx) = control_channel {
-                if let Some(control) = rx.recv().await {
-                    return Some(control);
-                }
+        if let Some(rx) = control_channel {
+            if let Some(control) = rx.recv().await {
+                return Some(control);
             }
-            yield_now().await;
         }
+        // no session, or its channel is closed: there is nothing to wait for
+        std::future::pending().await
     }
 
     async fn handle_pre_connect(
-- 
2.43.0


From d7cd4ea5292e6f59012f748673fd273dba249af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:19 +0000
Subject: [PATCH 18/79] fix: do not match topics beginning with $ with a
 leading wildcard

---
 vaux-broker/src/topic.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vaux-broker/src/topic.rs b/vaux-broker/src/topic.rs
index f9d4fac..d8e40b7 100644
--- a/vaux-broker/src/topic.rs
+++ b/vaux-broker/src/topic.rs
@@ -128,18 +128,21 @@ impl TopicTree {
 
         let segment = segments[depth];
 
+        // MQTTv5 4.7.2 a leading wildcard does not match topics beginning with '$'
+        let wildcards_match = depth > 0 || !segment.starts_with('$');
+
         // exact match on this segment
         if let Some(&child_idx) = node.children.get(segment) {
             self.collect_matches(child_idx, segments, depth + 1, results);
         }
 
         // '+' wildcard matches any single level
-        if let Some(&plus_idx) = node.children.get("+") {
+        if let Some(&plus_idx) = node.children.get("+").filter(|_| wildcards_match) {
             self.collect_matches(plus_idx, segments, depth + 1, results);
         }
 
         // '#' child matches this level and everything below
-        if let Some(&hash_idx) = node.children.get("#") {
+        if let Some(&hash_idx) = node.children.get("#").filter(|_| wildcards_match) {
             let hash_node = &self.nodes[hash_idx as usize];
             results.extend(hash_node.wildcard_subscribers.iter().cloned());
         }
-- 
2.43.0


From 5cd24783defdbad36ff8a66443ce350c2b1b8e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:19 +0000
Subject: [PATCH 19/79] fix: answer UNSUBSCRIBE without a subscription with No
 subscription existed

---
 vaux-broker/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 46b2d3d..d68e6c3 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -418,7 +418,7 @@ impl Broker {
             let reason = if tree.unsubscribe(topic, session_id) {
                 Reason::Success
             } else {
-                Reason::NoSubscribers
+                Reason::NoSubscriptionExisted
             };
             unsuback.reason_code.push(reason);
         }
-- 
2.43.0


From be11025b77a9fdceea08eb161e97310d2aea69a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:20 +0000
Subject: [PATCH 20/79] fix: do not propagate the DUP flag of an incoming
 PUBLISH to subscribers

---
 vaux-broker/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index d68e6c3..b0167ee 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -670,6 +670,8 @@ impl Broker {
             if let Some(target_session) = session_pool.get_active(&sub.session_id) {
                 let mut out = publish.clone();
                 out.set_qos(qos);
+                // MQTTv5 3.3.1.1 DUP is not propagated from the incoming packet
+                let _ = out.set_dup(false);
                 if qos != QoSLevel::AtMostOnce {
                     let mut target = target_session.write().await;
                     let packet_id = target.next_packet_id();
-- 
2.43.0


From b33a5a45d42fe53d3953fe2da8a440135dcf032d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:20 +0000
Subject: [PATCH 21/79] fix: publish the user properties of a will message

---
 vaux-broker/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index b0167ee..ec9376b 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -648,6 +648,7 @@ impl Broker {
         publish.content_type = will.header.content_type.clone();
         publish.response_topic = will.header.response_topic.clone();
         publish.correlation_data = will.header.correlation_data.clone();
+        publish.user_properties = will.header.user_properties.clone();
         if let Some(format) = will.header.payload_format {
             publish.set_payload_format(format);
         }
-- 
2.43.0


From be172b4e8216a2d7d57e72ab787b02a19529d0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:48 +0000
Subject: [PATCH 22/79] fix: redeliver unacknowledged messages in order and
 keep their packet identifiers reserved

---
 vaux-broker/src/lib.rs     |  6 +-----
 vaux-broker/src/session.rs | 33 +++++++++++++++++++++++++--------
 2 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index ec9376b..4a91f8b 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -261,15 +261,11 @@ impl Broker {
                                         let mut session = session.write().await;
                                         keep_alive = session.keep_alive();
                                         session_control = session.take_control_receiver();
-                                        session.drain_pending()
+                                        session.pending()
                                     };
                                     for (packet_id, mut publish) in pending {
                                         publish.set_dup(true).ok();
                                         let _ = publish.set_packet_id(Some(packet_id));
-                                        {
-                                            let mut s = session.write().await;
-                                            s.track_qos_publish(packet_id, publish.clone());
-                                        }
                                         stream.write(&mut Packet::Publish(publish)).await?;
                                     }
                                     client_session = Some(Arc::clone(&session));
diff --git a/vaux-broker/src/session.rs b/vaux-broker/src/session.rs
index 91e8f18..28bf2dc 100644
--- a/vaux-broker/src/session.rs
+++ b/vaux-broker/src/session.rs
@@ -190,7 +190,8 @@ pub struct Session {
     will_message: Option<WillMessage>,
     pending_will: Option<CancellationToken>,
     next_packet_id: u16,
-    pending_ack: HashMap<u16, Publish>,
+    pending_ack: HashMap<u16, (u64, Publish)>,
+    track_sequence: u64,
     control: (Sender<SessionControl>, Option<Receiver<SessionControl>>),
 }
 
@@ -213,6 +214,7 @@ impl Session {
             pending_will: None,
             next_packet_id: 1,
             pending_ack: HashMap::new(),
+            track_sequence: 0,
             control: (sender, Some(receiver)),
         }
     }
@@ -275,16 +277,25 @@ impl Session {
     }
 
     pub fn next_packet_id(&mut self) -> u16 {
-        let id = self.next_packet_id;
-        self.next_packet_id = self.next_packet_id.wrapping_add(1);
-        if self.next_packet_id == 0 {
-            self.next_packet_id = 1;
+        let mut id = self.next_packet_id;
+        // skip identifiers that are still waiting for an acknowledgement
+        for _ in 0..u16::MAX {
+            id = self.next_packet_id;
+            self.next_packet_id = self.next_packet_id.wrapping_add(1);
+            if self.next_packet_id == 0 {
+                self.next_packet_id = 1;
+            }
+            if !self.pending_ack.contains_key(&id) {
+                break;
+            }
         }
         id
     }
 
     pub fn track_qos_publish(&mut self, packet_id: u16, publish: Publish) {
-        self.pending_ack.insert(packet_id, publish);
+        self.track_sequence += 1;
+        self.pending_ack
+            .insert(packet_id, (self.track_sequence, publish));
     }
 
     pub fn acknowledge(&mut self, packet_id: u16) -> bool {
@@ -295,8 +306,14 @@ impl Session {
         self.pending_ack.len()
     }
 
-    pub fn drain_pending(&mut self) -> Vec<(u16, Publish)> {
-        self.pending_ack.drain().collect()
+    /// Messages waiting for an acknowledgement in the order they were first sent.
+    pub fn pending(&self) -> Vec<(u16, Publish)> {
+        let mut pending: Vec<_> = self.pending_ack.iter().collect();
+        pending.sort_by_key(|(_, (sequence, _))| *sequence);
+        pending
+            .into_iter()
+            .map(|(packet_id, (_, publish))| (*packet_id, publish.clone()))
+            .collect()
     }
 
     pub fn id(&self) -> &str {
-- 
2.43.0


From c053ce20c98739c3c10146e165722f7d598d3e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:06 +0000
Subject: [PATCH 23/79] fix: end broker connections without harming or blocking
 other sessions

---
 vaux-broker/src/lib.rs     | 260 ++++++++++++++++++++-----------------
 vaux-broker/src/session.rs |  63 ++++++---
 2 files changed, 183 insertions(+), 140 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 4a91f8b..20bbc54 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -5,6 +5,7 @@ pub(crate) mod topic;
 pub use config::Config;
 use config::{BROKER_KEEP_ALIVE_FACTOR, DEFAULT_KEEP_ALIVE};
 use session::Session;
+use session::SessionConnection;
 use session::SessionControl;
 use session::SessionPool;
 use std::sync::atomic::{AtomicBool, Ordering};
@@ -13,7 +14,7 @@ use std::time::Duration;
 use tokio::{
     net::TcpListener,
     select,
-    sync::{mpsc::Receiver, mpsc::Sender, RwLock},
+    sync::{mpsc::Receiver, mpsc::Sender, watch, RwLock},
     task::JoinHandle,
 };
 use topic::TopicTree;
@@ -28,6 +29,8 @@ use vaux_mqtt::{
 };
 
 const INIT_STREAM_BUFFER_SIZE: usize = 4096;
+/// How long to wait for a client to take the DISCONNECT the broker closes its connection with
+const DISCONNECT_TIMEOUT: Duration = Duration::from_secs(5);
 
 #[derive(Debug)]
 pub enum BrokerError {
@@ -95,6 +98,14 @@ impl BrokerState {
     }
 }
 
+/// A connection accepted for a session, with what is left to send to its client
+struct AcceptedConnection {
+    session: Arc<RwLock<Session>>,
+    connection: SessionConnection,
+    ack: ConnAck,
+    pending: Vec<(u16, Publish)>,
+}
+
 #[derive(Debug)]
 pub struct Broker {
     state: BrokerState,
@@ -205,95 +216,73 @@ impl Broker {
         stream: &mut PacketStream,
         state: BrokerState,
     ) -> Result<(), BrokerError> {
-        let mut connected = false;
-        let mut client_session: Option<Arc<RwLock<Session>>> = None;
+        let mut client_session = None;
+        let result = Broker::serve_client(stream, &state, &mut client_session).await;
+        if let Some((session, connection)) = &client_session {
+            if let Err(e) = &result {
+                let session_id = session.read().await.id().to_string();
+                tracing::warn!(session_id = %session_id, error = %e, "connection error");
+            }
+            Broker::release_session(session, *connection, &state).await;
+        }
+        let _ = stream.shutdown().await;
+        result
+    }
+
+    /// Serves a client until its connection ends for whatever reason. The session of the
+    /// connection is left to the caller to release.
+    async fn serve_client(
+        stream: &mut PacketStream,
+        state: &BrokerState,
+        client_session: &mut Option<(Arc<RwLock<Session>>, u64)>,
+    ) -> Result<(), BrokerError> {
         let mut session_control: Option<Receiver<SessionControl>> = None;
+        let mut close: Option<watch::Receiver<Option<Reason>>> = None;
         let mut keep_alive = DEFAULT_KEEP_ALIVE;
         loop {
             select! {
+                reason = Broker::close_requested(&mut close) => {
+                    Broker::send_disconnect(stream, reason).await;
+                    return Ok(());
+                }
                 ctrl = Broker::handle_control(&mut session_control) => {
-                    if let Some(control) = ctrl {
-                        match control {
-                            SessionControl::Disconnect(reason) => {
-                                if let Some(session) = &client_session {
-                                    let session_id = {
-                                        let session = session.read().await;
-                                        (*session).id().to_string()
-                                    };
-                                    match reason {
-                                        Reason::SessionTakeOver => {
-                                            // the session will already be deactivated and taken over
-                                            // by another client, just send the disconnect packet
-                                        }
-                                        _ => {
-                                            state.session_pool.write().await.deactivate(&session_id).await;
-                                        }
-                                    }
-                                    stream.write(&mut Packet::Disconnect(Disconnect::new(reason))).await?;
-                                } else {
-                                    stream.shutdown().await?;
-                                    return Ok(());
-                                }
-                            }
-                            SessionControl::Deliver(publish) => {
-                                stream.write(&mut Packet::Publish(*publish)).await?;
-                            }
+                    if let Some(SessionControl::Deliver(publish)) = ctrl {
+                        let mut packet = Packet::Publish(*publish);
+                        select! {
+                            result = stream.write(&mut packet) => result?,
+                            // part of the packet may be written, nothing else can follow it
+                            _ = Broker::close_requested(&mut close) => return Ok(()),
                         }
                     }
                 }
                 _ = Broker::keep_alive_timer(keep_alive) => {
-                    if let Some(session) = &client_session {
+                    if let Some((session, _)) = client_session {
                         let session_id = session.read().await.id().to_string();
                         tracing::info!(session_id = %session_id, "keep-alive expired");
-                        Broker::initiate_will(session, &state).await;
-                        state.session_pool.write().await.deactivate(&session_id).await;
-                    } else {
-                        stream.shutdown().await?;
-                        return Ok(());
+                        Broker::send_disconnect(stream, Reason::KeepAliveTimeout).await;
                     }
+                    return Ok(());
                 }
                 packet_result = stream.read() => {
-                    match packet_result {
-                        Ok(Some(packet)) => {
-                            if !connected {
-                                if let Some(session) = Broker::handle_pre_connect(packet, stream, &state).await? {
-                                    let pending = {
-                                        let mut session = session.write().await;
-                                        keep_alive = session.keep_alive();
-                                        session_control = session.take_control_receiver();
-                                        session.pending()
-                                    };
-                                    for (packet_id, mut publish) in pending {
-                                        publish.set_dup(true).ok();
-                                        let _ = publish.set_packet_id(Some(packet_id));
-                                        stream.write(&mut Packet::Publish(publish)).await?;
-                                    }
-                                    client_session = Some(Arc::clone(&session));
-                                } else {
-                                    continue;
-                                }
-                                connected = true;
-                            } else if let Some(session) = &client_session {
-                                Broker::handle_packet(packet, stream, Arc::clone(session), &state).await?;
-                            }
-                        }
-                        Ok(None) => {
-                            if let Some(session) = &client_session {
-                                let session_id = session.read().await.id().to_string();
-                                tracing::info!(session_id = %session_id, "connection closed");
-                                Broker::initiate_will(session, &state).await;
-                                state.session_pool.write().await.deactivate(&session_id).await;
-                            }
+                    let Some(packet) = packet_result? else {
+                        return Ok(());
+                    };
+                    if let Some((session, connection)) = client_session {
+                        let disconnect = matches!(packet, Packet::Disconnect(_));
+                        Broker::handle_packet(packet, stream, Arc::clone(session), *connection, state).await?;
+                        if disconnect {
                             return Ok(());
                         }
-                        Err(e) => {
-                            if let Some(session) = &client_session {
-                                let session_id = session.read().await.id().to_string();
-                                tracing::warn!(session_id = %session_id, error = %e, "connection error");
-                                Broker::initiate_will(session, &state).await;
-                                state.session_pool.write().await.deactivate(&session_id).await;
-                            }
-                            return Err(e.into());
+                    } else if let Some(accepted) = Broker::handle_pre_connect(packet, stream, state).await? {
+                        *client_session = Some((Arc::clone(&accepted.session), accepted.connection.id));
+                        keep_alive = accepted.session.read().await.keep_alive();
+                        session_control = Some(accepted.connection.control);
+                        close = Some(accepted.connection.close);
+                        stream.write(&mut Packet::ConnAck(accepted.ack)).await?;
+                        for (packet_id, mut publish) in accepted.pending {
+                            publish.set_dup(true).ok();
+                            let _ = publish.set_packet_id(Some(packet_id));
+                            stream.write(&mut Packet::Publish(publish)).await?;
                         }
                     }
                 }
@@ -301,10 +290,46 @@ impl Broker {
         }
     }
 
+    /// Ends the session's use of a connection, unless another connection has taken the
+    /// session over: publishes the will message, if any, and deactivates the session.
+    async fn release_session(
+        session: &Arc<RwLock<Session>>,
+        connection: u64,
+        state: &BrokerState,
+    ) {
+        Broker::initiate_will(session, connection, state).await;
+        let mut session_pool = state.session_pool.write().await;
+        let session_id = {
+            let session = session.read().await;
+            if !session.owned_by(connection) {
+                return;
+            }
+            session.id().to_string()
+        };
+        tracing::info!(session_id = %session_id, "connection closed");
+        session_pool.deactivate(&session_id).await;
+    }
+
+    async fn close_requested(close: &mut Option<watch::Receiver<Option<Reason>>>) -> Reason {
+        if let Some(rx) = close {
+            if let Ok(reason) = rx.wait_for(|reason| reason.is_some()).await {
+                return reason.unwrap_or(Reason::UnspecifiedErr);
+            }
+        }
+        std::future::pending().await
+    }
+
+    /// Sends a DISCONNECT to a client that may have stopped reading
+    async fn send_disconnect(stream: &mut PacketStream, reason: Reason) {
+        let mut packet = Packet::Disconnect(Disconnect::new(reason));
+        let _ = tokio::time::timeout(DISCONNECT_TIMEOUT, stream.write(&mut packet)).await;
+    }
+
     async fn handle_packet(
         packet: Packet,
         stream: &mut PacketStream,
         session: Arc<RwLock<Session>>,
+        connection: u64,
         state: &BrokerState,
     ) -> Result<(), BrokerError> {
         match packet {
@@ -360,22 +385,10 @@ impl Broker {
                 Ok(())
             }
             Packet::Disconnect(packet) => {
-                if let Reason::Success = packet.reason {
-                    let mut session = session.write().await;
+                let mut session = session.write().await;
+                if packet.reason == Reason::Success && session.owned_by(connection) {
                     session.clear_will();
-                } else {
-                    Broker::initiate_will(&session, state).await;
                 }
-                let session_id = {
-                    let session = session.read().await;
-                    (*session).id().to_string()
-                };
-                state
-                    .session_pool
-                    .write()
-                    .await
-                    .deactivate(&session_id)
-                    .await;
                 Ok(())
             }
             _ => Ok(()),
@@ -437,7 +450,7 @@ impl Broker {
         packet: Packet,
         stream: &mut PacketStream,
         state: &BrokerState,
-    ) -> Result<Option<Arc<RwLock<Session>>>, BrokerError> {
+    ) -> Result<Option<AcceptedConnection>, BrokerError> {
         match packet {
             Packet::Connect(packet) => {
                 if !state.accepting_connections() {
@@ -468,7 +481,7 @@ impl Broker {
         connect: Connect,
         stream: &mut PacketStream,
         state: &BrokerState,
-    ) -> Result<Option<Arc<RwLock<Session>>>, BrokerError> {
+    ) -> Result<Option<AcceptedConnection>, BrokerError> {
         let session_id: String;
         let mut ack = ConnAck::default();
         let (default_keep_alive_secs, max_keep_alive_secs) = {
@@ -528,12 +541,13 @@ impl Broker {
             return Ok(None);
         }
 
+        let mut taken_over_will = None;
         let session: Arc<RwLock<Session>> = if connect.clean_start() {
             if let Some(existing_session) = session_pool.remove(session_id.as_str()) {
-                let connected = { existing_session.read().await.connected() };
-                if connected {
-                    let _ = Broker::handle_takeover(Arc::clone(&existing_session)).await;
-                }
+                let mut existing_session = existing_session.write().await;
+                // the session ends here, its will message is due whatever its delay
+                taken_over_will = existing_session.take_will();
+                existing_session.take_over();
             }
             let mut new_session =
                 Session::new(session_id.clone(), connect.will_message(), keep_alive, channel_size);
@@ -548,17 +562,19 @@ impl Broker {
                     ack.set_session_present(true);
                     session.cancel_pending_will();
                     session.set_will(connect.will_message());
-                    session.reset_control(channel_size);
                 }
                 session
             } else if let Some(session) = session_pool.get_active(&session_id) {
                 {
-                    let _ = Broker::handle_takeover(Arc::clone(&session)).await;
                     let mut session = session.write().await;
                     ack.set_session_present(true);
                     session.cancel_pending_will();
+                    // a delayed will message is not sent as the session is resumed
+                    taken_over_will = session
+                        .take_will()
+                        .filter(|will| will.header.will_delay.unwrap_or(0) == 0);
+                    session.take_over();
                     session.set_will(connect.will_message());
-                    session.reset_control(channel_size);
                     session.set_last_active();
                 }
                 session
@@ -575,37 +591,46 @@ impl Broker {
                 new_session
             }
         };
-        drop(session_pool);
-        {
+        let (connection, pending) = {
             let mut session = session.write().await;
             if let Some(expiry) = session_expiry {
                 session.set_session_expiry(expiry);
             }
+            (session.open_connection(channel_size), session.pending())
+        };
+        drop(session_pool);
+        if let Some(will) = taken_over_will {
+            Broker::publish_will(&will, state).await;
         }
         tracing::info!(session_id = %session_id, "client connected");
-        stream.write(&mut Packet::ConnAck(ack)).await?;
-        Ok(Some(Arc::clone(&session)))
+        Ok(Some(AcceptedConnection {
+            session,
+            connection,
+            ack,
+            pending,
+        }))
     }
 
     async fn keep_alive_timer(keep_alive: Duration) {
         tokio::time::sleep(keep_alive).await;
     }
 
-    async fn handle_takeover(session: Arc<RwLock<Session>>) -> Result<(), BrokerError> {
-        session
-            .read()
-            .await
-            .disconnect(Reason::SessionTakeOver)
-            .await;
-        // TODO wait for disconnect to complete from session state
-        tokio::time::sleep(Duration::from_millis(500)).await;
-        Ok(())
-    }
-
-    async fn initiate_will(session: &Arc<RwLock<Session>>, state: &BrokerState) {
+    async fn initiate_will(
+        session: &Arc<RwLock<Session>>,
+        connection: u64,
+        state: &BrokerState,
+    ) {
+        let token = tokio_util::sync::CancellationToken::new();
         let will = {
             let mut session = session.write().await;
-            session.take_will()
+            if !session.owned_by(connection) {
+                return;
+            }
+            let will = session.take_will();
+            if will.is_some() {
+                session.set_pending_will(token.clone());
+            }
+            will
         };
 
         if let Some(will) = will {
@@ -614,7 +639,6 @@ impl Broker {
             if delay_secs == 0 {
                 Broker::publish_will(&will, state).await;
             } else {
-                let token = tokio_util::sync::CancellationToken::new();
                 let child_token = token.child_token();
                 let state = state.clone();
                 tokio::spawn(async move {
@@ -625,8 +649,6 @@ impl Broker {
                         _ = child_token.cancelled() => {}
                     }
                 });
-                let mut session = session.write().await;
-                session.set_pending_will(token);
             }
         }
     }
@@ -680,7 +702,7 @@ impl Broker {
                             topic = %publish.topic_name,
                             "slow subscriber: channel full, disconnecting"
                         );
-                        let _ = target.try_send_control(SessionControl::Disconnect(Reason::QuotaExceeded));
+                        target.close(Reason::QuotaExceeded);
                     }
                 } else {
                     let target = target_session.read().await;
@@ -690,7 +712,7 @@ impl Broker {
                             topic = %publish.topic_name,
                             "slow subscriber: channel full, disconnecting"
                         );
-                        let _ = target.try_send_control(SessionControl::Disconnect(Reason::QuotaExceeded));
+                        target.close(Reason::QuotaExceeded);
                     }
                 }
             }
diff --git a/vaux-broker/src/session.rs b/vaux-broker/src/session.rs
index 28bf2dc..658ac6a 100644
--- a/vaux-broker/src/session.rs
+++ b/vaux-broker/src/session.rs
@@ -6,6 +6,7 @@ use std::{
 use tokio::sync::{
     RwLock,
     mpsc::{self, Receiver, Sender},
+    watch,
 };
 use tokio_util::sync::CancellationToken;
 use vaux_mqtt::{Publish, Reason, WillMessage};
@@ -176,10 +177,17 @@ impl SessionPool {
 
 #[derive(Debug)]
 pub(crate) enum SessionControl {
-    Disconnect(Reason),
     Deliver(Box<vaux_mqtt::Publish>),
 }
 
+/// The broker side of one network connection of a session.
+#[derive(Debug)]
+pub(crate) struct SessionConnection {
+    pub id: u64,
+    pub control: Receiver<SessionControl>,
+    pub close: watch::Receiver<Option<Reason>>,
+}
+
 #[derive(Debug)]
 pub struct Session {
     id: String,
@@ -192,7 +200,9 @@ pub struct Session {
     next_packet_id: u16,
     pending_ack: HashMap<u16, (u64, Publish)>,
     track_sequence: u64,
-    control: (Sender<SessionControl>, Option<Receiver<SessionControl>>),
+    connection: u64,
+    control: Sender<SessionControl>,
+    close: watch::Sender<Option<Reason>>,
 }
 
 impl Session {
@@ -203,7 +213,8 @@ impl Session {
         keep_alive: Duration,
         channel_size: usize,
     ) -> Self {
-        let (sender, receiver) = mpsc::channel(channel_size);
+        let (control, _) = mpsc::channel(channel_size);
+        let (close, _) = watch::channel(None);
         Session {
             id,
             last_active: Instant::now(),
@@ -215,39 +226,49 @@ impl Session {
             next_packet_id: 1,
             pending_ack: HashMap::new(),
             track_sequence: 0,
-            control: (sender, Some(receiver)),
+            connection: 0,
+            control,
+            close,
         }
     }
 
-    pub fn reset_control(&mut self, channel_size: usize) {
-        let (sender, receiver) = mpsc::channel(channel_size);
-        self.control = (sender, Some(receiver));
-    }
-
-    pub fn control_sender(&self) -> Sender<SessionControl> {
-        self.control.0.clone()
+    /// Attaches a new network connection to the session. The session no longer
+    /// belongs to any connection opened before.
+    pub(crate) fn open_connection(&mut self, channel_size: usize) -> SessionConnection {
+        let (control, control_receiver) = mpsc::channel(channel_size);
+        let (close, close_receiver) = watch::channel(None);
+        self.connection += 1;
+        self.control = control;
+        self.close = close;
+        SessionConnection {
+            id: self.connection,
+            control: control_receiver,
+            close: close_receiver,
+        }
     }
 
-    pub fn take_control_receiver(&mut self) -> Option<Receiver<SessionControl>> {
-        self.control.1.take()
+    /// Returns true if the session belongs to the network connection
+    pub(crate) fn owned_by(&self, connection: u64) -> bool {
+        self.connection == connection
     }
 
-    pub async fn disconnect(&self, reason: Reason) {
-        let _ = self.send_control(SessionControl::Disconnect(reason)).await;
+    /// Asks the network connection of the session to close. Never waits for the connection,
+    /// which may be blocked writing to its client.
+    pub fn close(&self, reason: Reason) {
+        self.close.send_replace(Some(reason));
     }
 
-    pub async fn send_control(
-        &self,
-        msg: SessionControl,
-    ) -> Result<(), tokio::sync::mpsc::error::SendError<SessionControl>> {
-        self.control.0.send(msg).await
+    /// Closes the network connection of the session and takes the session away from it.
+    pub(crate) fn take_over(&mut self) {
+        self.close(Reason::SessionTakeOver);
+        self.connection += 1;
     }
 
     pub fn try_send_control(
         &self,
         msg: SessionControl,
     ) -> Result<(), tokio::sync::mpsc::error::TrySendError<SessionControl>> {
-        self.control.0.try_send(msg)
+        self.control.try_send(msg)
     }
 
     /// Clears the will message from the session. This is typically done on a successful
-- 
2.43.0


From 25ce79bace9110432d5895ad32fd8473ced308e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:23 +0000
Subject: [PATCH 24/79] fix: drop the subscriptions of a session discarded by a
 clean start

---
 vaux-broker/src/lib.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 20bbc54..1f19587 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -339,11 +339,8 @@ impl Broker {
                 Ok(())
             }
             Packet::Subscribe(subscribe) => {
-                let session_id = {
-                    let session = session.read().await;
-                    session.id().to_string()
-                };
-                let suback = Broker::handle_subscribe(&subscribe, &session_id, state).await;
+                let suback =
+                    Broker::handle_subscribe(&subscribe, &session, connection, state).await;
                 stream.write(&mut Packet::SubAck(suback)).await?;
                 Ok(())
             }
@@ -397,14 +394,21 @@ impl Broker {
 
     async fn handle_subscribe(
         subscribe: &Subscribe,
-        session_id: &str,
+        session: &Arc<RwLock<Session>>,
+        connection: u64,
         state: &BrokerState,
     ) -> SubAck {
         let mut suback = SubAck::new_with_packet_id(subscribe.packet_id).unwrap_or_default();
         let mut tree = state.topic_tree.write().await;
+        let session = session.read().await;
+        if !session.owned_by(connection) {
+            // taken over: the subscription must not outlive the session it was made for
+            suback.reason_codes = vec![Reason::SessionTakeOver; subscribe.filter.len()];
+            return suback;
+        }
         for filter in &subscribe.filter {
             let granted_qos = filter.qos();
-            tree.subscribe(&filter.filter, session_id, granted_qos, filter.no_local());
+            tree.subscribe(&filter.filter, session.id(), granted_qos, filter.no_local());
             let reason = match granted_qos {
                 vaux_mqtt::QoSLevel::AtMostOnce => Reason::Success,
                 vaux_mqtt::QoSLevel::AtLeastOnce => Reason::GrantedQoS1,
@@ -544,10 +548,14 @@ impl Broker {
         let mut taken_over_will = None;
         let session: Arc<RwLock<Session>> = if connect.clean_start() {
             if let Some(existing_session) = session_pool.remove(session_id.as_str()) {
-                let mut existing_session = existing_session.write().await;
-                // the session ends here, its will message is due whatever its delay
-                taken_over_will = existing_session.take_will();
-                existing_session.take_over();
+                {
+                    let mut existing_session = existing_session.write().await;
+                    // the session ends here, its will message is due whatever its delay
+                    taken_over_will = existing_session.take_will();
+                    existing_session.take_over();
+                }
+                // its subscriptions end with it
+                state.topic_tree.write().await.unsubscribe_all(&session_id);
             }
             let mut new_session =
                 Session::new(session_id.clone(), connect.will_message(), keep_alive, channel_size);
-- 
2.43.0


From d6bc36d89819ccb6181aacd1082134a45ecd7b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:42 +0000
Subject: [PATCH 25/79] fix: measure the broker's keep alive from the last
 received packet

---
 vaux-broker/src/lib.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 1f19587..ccd4f36 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -16,6 +16,7 @@ use tokio::{
     select,
     sync::{mpsc::Receiver, mpsc::Sender, watch, RwLock},
     task::JoinHandle,
+    time::Instant,
 };
 use topic::TopicTree;
 use uuid::Uuid;
@@ -239,6 +240,7 @@ impl Broker {
         let mut session_control: Option<Receiver<SessionControl>> = None;
         let mut close: Option<watch::Receiver<Option<Reason>>> = None;
         let mut keep_alive = DEFAULT_KEEP_ALIVE;
+        let mut last_received = Instant::now();
         loop {
             select! {
                 reason = Broker::close_requested(&mut close) => {
@@ -252,10 +254,11 @@ impl Broker {
                             result = stream.write(&mut packet) => result?,
                             // part of the packet may be written, nothing else can follow it
                             _ = Broker::close_requested(&mut close) => return Ok(()),
+                            _ = Broker::keep_alive_timer(last_received, keep_alive) => return Ok(()),
                         }
                     }
                 }
-                _ = Broker::keep_alive_timer(keep_alive) => {
+                _ = Broker::keep_alive_timer(last_received, keep_alive) => {
                     if let Some((session, _)) = client_session {
                         let session_id = session.read().await.id().to_string();
                         tracing::info!(session_id = %session_id, "keep-alive expired");
@@ -267,6 +270,7 @@ impl Broker {
                     let Some(packet) = packet_result? else {
                         return Ok(());
                     };
+                    last_received = Instant::now();
                     if let Some((session, connection)) = client_session {
                         let disconnect = matches!(packet, Packet::Disconnect(_));
                         Broker::handle_packet(packet, stream, Arc::clone(session), *connection, state).await?;
@@ -498,12 +502,12 @@ impl Broker {
         // handle keep alive request
         let keep_alive = if connect.keep_alive < default_keep_alive_secs {
             ack.set_server_keep_alive(default_keep_alive_secs);
-            Duration::from_secs((default_keep_alive_secs as f32 * BROKER_KEEP_ALIVE_FACTOR) as u64)
+            Duration::from_secs(default_keep_alive_secs as u64).mul_f32(BROKER_KEEP_ALIVE_FACTOR)
         } else if connect.keep_alive > max_keep_alive_secs {
             ack.set_server_keep_alive(max_keep_alive_secs);
-            Duration::from_secs((max_keep_alive_secs as f32 * BROKER_KEEP_ALIVE_FACTOR) as u64)
+            Duration::from_secs(max_keep_alive_secs as u64).mul_f32(BROKER_KEEP_ALIVE_FACTOR)
         } else {
-            Duration::from_secs((connect.keep_alive as f32 * BROKER_KEEP_ALIVE_FACTOR) as u64)
+            Duration::from_secs(connect.keep_alive as u64).mul_f32(BROKER_KEEP_ALIVE_FACTOR)
         };
         // handle the session expiry request
         let session_expiry = if let Some(requested_expiry) = connect.session_expiry_interval {
@@ -604,6 +608,7 @@ impl Broker {
             if let Some(expiry) = session_expiry {
                 session.set_session_expiry(expiry);
             }
+            session.set_keep_alive(keep_alive);
             (session.open_connection(channel_size), session.pending())
         };
         drop(session_pool);
@@ -619,8 +624,12 @@ impl Broker {
         }))
     }
 
-    async fn keep_alive_timer(keep_alive: Duration) {
-        tokio::time::sleep(keep_alive).await;
+    /// Completes when nothing was received for the keep alive time, never if that is zero
+    async fn keep_alive_timer(last_received: Instant, keep_alive: Duration) {
+        if keep_alive.is_zero() {
+            std::future::pending::<()>().await;
+        }
+        tokio::time::sleep_until(last_received + keep_alive).await;
     }
 
     async fn initiate_will(
-- 
2.43.0


From 0e6729206377a0abec03e7003c25dec8e196cbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:59 +0000
Subject: [PATCH 26/79] fix: end expired sessions instead of resuming them

---
 vaux-broker/src/lib.rs     | 46 +++++++++++++++++++++++++++++---------
 vaux-broker/src/session.rs | 25 ++++++++++++++-------
 2 files changed, 53 insertions(+), 18 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index ccd4f36..ec2bb7f 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -308,6 +308,12 @@ impl Broker {
             if !session.owned_by(connection) {
                 return;
             }
+            if session.session_expiry().is_none() {
+                // the session ends with its connection
+                session_pool.remove(session.id());
+                state.topic_tree.write().await.unsubscribe_all(session.id());
+                return;
+            }
             session.id().to_string()
         };
         tracing::info!(session_id = %session_id, "connection closed");
@@ -386,10 +392,21 @@ impl Broker {
                 Ok(())
             }
             Packet::Disconnect(packet) => {
+                let max_expiry = state.session_pool.read().await.session_expiry();
                 let mut session = session.write().await;
-                if packet.reason == Reason::Success && session.owned_by(connection) {
+                if !session.owned_by(connection) {
+                    return Ok(());
+                }
+                if packet.reason == Reason::Success {
                     session.clear_will();
                 }
+                // an expiry interval can be changed, but not be set if there was none
+                if let (Some(expiry), Some(_)) =
+                    (packet.session_expiry_interval, session.session_expiry())
+                {
+                    let expiry = Duration::from_secs(expiry as u64).min(max_expiry);
+                    session.set_session_expiry(Some(expiry).filter(|expiry| !expiry.is_zero()));
+                }
                 Ok(())
             }
             _ => Ok(()),
@@ -549,8 +566,13 @@ impl Broker {
             return Ok(None);
         }
 
+        // a session without an expiry interval ends with its connection
+        let session_ends = match session_pool.get_active(&session_id) {
+            Some(session) => session.read().await.session_expiry().is_none(),
+            None => false,
+        };
         let mut taken_over_will = None;
-        let session: Arc<RwLock<Session>> = if connect.clean_start() {
+        let session: Arc<RwLock<Session>> = if connect.clean_start() || session_ends {
             if let Some(existing_session) = session_pool.remove(session_id.as_str()) {
                 {
                     let mut existing_session = existing_session.write().await;
@@ -568,6 +590,10 @@ impl Broker {
             session_pool.add(Arc::clone(&new_session)).await;
             new_session
         } else {
+            if let Some(expired) = session_pool.remove_expired(&session_id).await {
+                let expired = expired.read().await;
+                state.topic_tree.write().await.unsubscribe_all(expired.id());
+            }
             if let Some(session) = session_pool.activate(&session_id).await {
                 {
                     let mut session = session.write().await;
@@ -605,9 +631,7 @@ impl Broker {
         };
         let (connection, pending) = {
             let mut session = session.write().await;
-            if let Some(expiry) = session_expiry {
-                session.set_session_expiry(expiry);
-            }
+            session.set_session_expiry(session_expiry.filter(|expiry| !expiry.is_zero()));
             session.set_keep_alive(keep_alive);
             (session.open_connection(channel_size), session.pending())
         };
@@ -638,7 +662,7 @@ impl Broker {
         state: &BrokerState,
     ) {
         let token = tokio_util::sync::CancellationToken::new();
-        let will = {
+        let (will, session_expiry) = {
             let mut session = session.write().await;
             if !session.owned_by(connection) {
                 return;
@@ -647,20 +671,22 @@ impl Broker {
             if will.is_some() {
                 session.set_pending_will(token.clone());
             }
-            will
+            (will, session.session_expiry().unwrap_or_default())
         };
 
         if let Some(will) = will {
             tracing::debug!(topic = %will.topic, "publishing will message");
-            let delay_secs = will.header.will_delay.unwrap_or(0);
-            if delay_secs == 0 {
+            // the will message is due when the session ends at the latest
+            let delay = Duration::from_secs(will.header.will_delay.unwrap_or(0) as u64)
+                .min(session_expiry);
+            if delay.is_zero() {
                 Broker::publish_will(&will, state).await;
             } else {
                 let child_token = token.child_token();
                 let state = state.clone();
                 tokio::spawn(async move {
                     tokio::select! {
-                        _ = tokio::time::sleep(Duration::from_secs(delay_secs as u64)) => {
+                        _ = tokio::time::sleep(delay) => {
                             Broker::publish_will(&will, &state).await;
                         }
                         _ = child_token.cancelled() => {}
diff --git a/vaux-broker/src/session.rs b/vaux-broker/src/session.rs
index 658ac6a..33508ce 100644
--- a/vaux-broker/src/session.rs
+++ b/vaux-broker/src/session.rs
@@ -1,13 +1,10 @@
-use std::{
-    collections::HashMap,
-    sync::Arc,
-    time::{Duration, Instant},
-};
+use std::{collections::HashMap, sync::Arc, time::Duration};
 use tokio::sync::{
     RwLock,
     mpsc::{self, Receiver, Sender},
     watch,
 };
+use tokio::time::Instant;
 use tokio_util::sync::CancellationToken;
 use vaux_mqtt::{Publish, Reason, WillMessage};
 
@@ -150,6 +147,17 @@ impl SessionPool {
         }
     }
 
+    /// Removes an inactive session from the pool if it has expired. The expired session is
+    /// returned, None is returned if there is no such session or it has not expired.
+    pub async fn remove_expired(&mut self, session_id: &str) -> Option<Arc<RwLock<Session>>> {
+        let session = self.inactive.get(session_id)?;
+        if !session.read().await.expired() {
+            return None;
+        }
+        self.inactive_sessions -= 1;
+        self.inactive.remove(session_id)
+    }
+
     /// Deactivates a session if the active session pool contains the session.
     /// The session is removed from the active pool and added to the inactive pool.
     /// The active session count is decremented and the inactive session count is
@@ -163,6 +171,7 @@ impl SessionPool {
             {
                 let mut session = session_guard.write().await;
                 session.set_connected(false);
+                session.set_last_active();
                 session_id = session.id().to_string();
             }
             self.inactive_sessions += 1;
@@ -369,7 +378,7 @@ impl Session {
 
     pub fn expired(&self) -> bool {
         if let Some(session_expiry) = self.session_expiry {
-            self.last_active.elapsed() > session_expiry
+            self.last_active.elapsed() >= session_expiry
         } else {
             true
         }
@@ -379,8 +388,8 @@ impl Session {
         self.session_expiry
     }
 
-    pub fn set_session_expiry(&mut self, session_expiry: Duration) {
-        self.session_expiry = Some(session_expiry);
+    pub fn set_session_expiry(&mut self, session_expiry: Option<Duration>) {
+        self.session_expiry = session_expiry;
     }
 }
 
-- 
2.43.0


From 971acd780e7e8d02e3f42a483b92f6cfa4e4a3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:18 +0000
Subject: [PATCH 27/79] fix: close connections that break the connect protocol

---
 vaux-broker/src/lib.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index ec2bb7f..acf5c49 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -409,6 +409,14 @@ impl Broker {
                 }
                 Ok(())
             }
+            Packet::Connect(_)
+            | Packet::ConnAck(_)
+            | Packet::SubAck(_)
+            | Packet::UnsubAck(_)
+            | Packet::PingResponse(_) => {
+                Broker::send_disconnect(stream, Reason::ProtocolErr).await;
+                Err(MqttCodecError::new("packet not allowed from a connected client").into())
+            }
             _ => Ok(()),
         }
     }
@@ -483,8 +491,7 @@ impl Broker {
                     let mut ack = ConnAck::default();
                     ack.reason = Reason::ServerBusy;
                     stream.write(&mut Packet::ConnAck(ack)).await?;
-                    stream.shutdown().await?;
-                    return Ok(None);
+                    return Err(MqttCodecError::new("connection refused: server busy").into());
                 }
                 Broker::handle_connect(*packet, stream, state).await
             }
@@ -497,7 +504,7 @@ impl Broker {
                 let header = Disconnect::new(Reason::ProtocolErr);
                 let mut packet = Packet::Disconnect(header);
                 stream.write(&mut packet).await?;
-                Ok(None)
+                Err(MqttCodecError::new("first packet is not CONNECT").into())
             }
         }
     }
@@ -562,8 +569,7 @@ impl Broker {
             tracing::info!(session_id = %session_id, "connection rejected: max active sessions reached");
             ack.reason = Reason::QuotaExceeded;
             stream.write(&mut Packet::ConnAck(ack)).await?;
-            stream.shutdown().await?;
-            return Ok(None);
+            return Err(MqttCodecError::new("connection refused: quota exceeded").into());
         }
 
         // a session without an expiry interval ends with its connection
-- 
2.43.0


From f7c550f7a3e766f6a733a2386d0b264370e5c9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:28 +0000
Subject: [PATCH 28/79] fix: refuse invalid topic names and filters in the
 broker

---
 vaux-broker/src/lib.rs   | 23 +++++++++++++++++++++++
 vaux-broker/src/topic.rs | 17 +++++++++++++++++
 2 files changed, 40 insertions(+)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index acf5c49..95ea004 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -368,6 +368,18 @@ impl Broker {
                     let session = session.read().await;
                     session.id().to_string()
                 };
+                let refused = if publish.topic_alias.is_some() {
+                    // the broker does not announce a topic alias maximum
+                    Some(Reason::InvalidTopicAlias)
+                } else if !topic::is_topic_name(&publish.topic_name) {
+                    Some(Reason::InvalidTopicName)
+                } else {
+                    None
+                };
+                if let Some(reason) = refused {
+                    Broker::send_disconnect(stream, reason).await;
+                    return Err(MqttCodecError::new("PUBLISH topic refused").into());
+                }
                 if publish.qos() == QoSLevel::AtLeastOnce {
                     match publish.packet_id() {
                         Some(packet_id) => {
@@ -436,6 +448,10 @@ impl Broker {
             return suback;
         }
         for filter in &subscribe.filter {
+            if !topic::is_topic_filter(&filter.filter) {
+                suback.reason_codes.push(Reason::InvalidTopicFilter);
+                continue;
+            }
             let granted_qos = filter.qos();
             tree.subscribe(&filter.filter, session.id(), granted_qos, filter.no_local());
             let reason = match granted_qos {
@@ -516,6 +532,13 @@ impl Broker {
     ) -> Result<Option<AcceptedConnection>, BrokerError> {
         let session_id: String;
         let mut ack = ConnAck::default();
+        if let Some(will) = connect.will_message() {
+            if !topic::is_topic_name(&will.topic) {
+                ack.reason = Reason::InvalidTopicName;
+                stream.write(&mut Packet::ConnAck(ack)).await?;
+                return Err(MqttCodecError::new("connection refused: invalid will topic").into());
+            }
+        }
         let (default_keep_alive_secs, max_keep_alive_secs) = {
             let session_pool = state.session_pool.read().await;
             (
diff --git a/vaux-broker/src/topic.rs b/vaux-broker/src/topic.rs
index d8e40b7..b584bc7 100644
--- a/vaux-broker/src/topic.rs
+++ b/vaux-broker/src/topic.rs
@@ -3,6 +3,23 @@ use vaux_mqtt::QoSLevel;
 
 const ROOT_NODE: u32 = 0;
 
+/// Returns true if messages can be published to the topic: it is not empty and has no wildcards
+pub fn is_topic_name(topic: &str) -> bool {
+    !topic.is_empty() && !topic.contains(['+', '#'])
+}
+
+/// Returns true if the filter is not empty and its wildcards occupy entire levels, with `#`
+/// at the last level only
+pub fn is_topic_filter(filter: &str) -> bool {
+    let last_level = filter.split('/').count() - 1;
+    !filter.is_empty()
+        && filter.split('/').enumerate().all(|(level, segment)| match segment {
+            "+" => true,
+            "#" => level == last_level,
+            _ => !segment.contains(['+', '#']),
+        })
+}
+
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub struct Subscriber {
     pub session_id: Box<str>,
-- 
2.43.0


From fa5a7e53a3a3c602a60bb010ed95ff4c09a6e4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:37 +0000
Subject: [PATCH 29/79] fix: keep accepting connections after a failed accept

---
 vaux-broker/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 95ea004..918a040 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -32,6 +32,8 @@ use vaux_mqtt::{
 const INIT_STREAM_BUFFER_SIZE: usize = 4096;
 /// How long to wait for a client to take the DISCONNECT the broker closes its connection with
 const DISCONNECT_TIMEOUT: Duration = Duration::from_secs(5);
+/// How long to wait after a connection could not be accepted
+const ACCEPT_RETRY_DELAY: Duration = Duration::from_millis(100);
 
 #[derive(Debug)]
 pub enum BrokerError {
@@ -199,8 +201,10 @@ impl Broker {
                                         });
                                     }
                                     Err(e) => {
+                                        // for one connection or for lack of resources, the
+                                        // listener itself keeps working
                                         tracing::error!(error = %e, "error accepting connection");
-                                        return Err(e.into());
+                                        tokio::time::sleep(ACCEPT_RETRY_DELAY).await;
                                     }
                                 }
                             }
-- 
2.43.0


From 5914c943414c600af30a22918d7483afcccdb326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:50 +0000
Subject: [PATCH 30/79] fix: stop accepting connections when the broker is
 stopped

---
 vaux-broker/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 918a040..19abbbc 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -142,7 +142,13 @@ impl Broker {
             .set_session_expiry(expiration);
     }
 
-    pub async fn stop(&mut self) {}
+    /// Stops accepting connections
+    pub async fn stop(&mut self) {
+        // there is nothing to stop before the broker runs
+        if self.command_channel.1.is_none() {
+            let _ = self.command_channel.0.send(BrokerCommand::Stop).await;
+        }
+    }
 
     pub async fn run(&mut self) -> Result<(), BrokerError> {
         tracing::info!(addr = %self.state.config.listen_addr, "broker starting");
-- 
2.43.0


From 7b5a3ba45464ceb77435628b37d63bee5237b8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:47 +0000
Subject: [PATCH 31/79] fix: refuse CONNECT packets with another protocol or
 invalid flags when decoding

---
 vaux-mqtt/src/connect.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/vaux-mqtt/src/connect.rs b/vaux-mqtt/src/connect.rs
index 2376ac1..c211ee5 100644
--- a/vaux-mqtt/src/connect.rs
+++ b/vaux-mqtt/src/connect.rs
@@ -12,6 +12,7 @@ pub(crate) const CONNECT_FLAG_WILL_RETAIN: u8 = 0b_0010_0000;
 pub(crate) const CONNECT_FLAG_WILL_QOS: u8 = 0b_0001_1000;
 pub(crate) const CONNECT_FLAG_WILL: u8 = 0b_0000_0100;
 pub(crate) const CONNECT_FLAG_CLEAN_START: u8 = 0b_0000_0010;
+const CONNECT_FLAG_RESERVED: u8 = 0b_0000_0001;
 
 const MQTT_PROTOCOL_NAME: &str = "MQTT";
 const MQTT_PROTOCOL_VERSION: u8 = 0x05;
@@ -197,8 +198,18 @@ impl codec::Decode for Connect {
         bytes_read += self.protocol_name.decode(src)?;
         self.protocol_version = src.try_get_u8()?;
         bytes_read += 1;
+        if self.protocol_name != MQTT_PROTOCOL_NAME || self.protocol_version != MQTT_PROTOCOL_VERSION {
+            return Err(MqttCodecError::new("unsupported protocol name or version"));
+        }
         self.connect_flags = src.try_get_u8()?;
         bytes_read += 1;
+        self.will_qos()?;
+        if self.connect_flags & CONNECT_FLAG_RESERVED != 0
+            || (!self.will()
+                && self.connect_flags & (CONNECT_FLAG_WILL_QOS | CONNECT_FLAG_WILL_RETAIN) != 0)
+        {
+            return Err(MqttCodecError::new("invalid connect flags"));
+        }
         self.keep_alive = src.try_get_u16()?;
         bytes_read += 2;
 
-- 
2.43.0


From 2f76cceeb85c6bd2f65842d082f9372d0e12933e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:15 +0000
Subject: [PATCH 32/79] fix: never assign packet identifier 0 in the client

---
 vaux-client/src/session.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index 98ebad4..123ab8d 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -304,12 +304,13 @@ impl ClientSession {
                     } else if self.state.auto_packet_id {
                         // if auto packet ID is enabled, generate a packet ID
                         self.state.last_packet_id = self.state.last_packet_id.wrapping_add(1);
-                        // verify the packet ID is not already in use
+                        // verify the packet ID is valid and not already in use
                         // TODO improve in-use packet ID managment
-                        while self
-                            .state
-                            .pending_qos_send
-                            .contains_key(&self.state.last_packet_id)
+                        while self.state.last_packet_id == 0
+                            || self
+                                .state
+                                .pending_qos_send
+                                .contains_key(&self.state.last_packet_id)
                         {
                             self.state.last_packet_id = self.state.last_packet_id.wrapping_add(1);
                         }
-- 
2.43.0


From 04b0f3499876e246c3c965263f75384241347e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:15 +0000
Subject: [PATCH 33/79] fix: keep the client identifier assigned by the server

---
 vaux-client/src/session.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index 123ab8d..d40f093 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -555,8 +555,11 @@ impl ClientSession {
     }
 
     async fn handle_connack(&mut self, connack: ConnAck) -> crate::Result<ConnAck> {
-        let set_id = self.state.client_id.lock().await;
-        let client_id_set = set_id.is_some();
+        // an empty client ID asks the server to assign one
+        let client_id_set = {
+            let set_id = self.state.client_id.lock().await;
+            set_id.as_ref().is_some_and(|id| !id.is_empty())
+        };
         if connack.reason != Reason::Success {
             // TODO return the connack reason as MQTT error with reason code
             let mut connected = self.connected.write().await;
-- 
2.43.0


From 94f8e8419e0ef5dbc7330d97abf4c0a7f4a0bb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:04 +0000
Subject: [PATCH 34/79] fix: measure the client's keep alive from the last sent
 packet

---
 vaux-client/src/client.rs  |  7 ++++---
 vaux-client/src/session.rs | 30 +++++++++++++++++++++---------
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/vaux-client/src/client.rs b/vaux-client/src/client.rs
index efaf3c2..2d6ad10 100644
--- a/vaux-client/src/client.rs
+++ b/vaux-client/src/client.rs
@@ -363,7 +363,7 @@ impl MqttClient {
             let mut pending_forward: Option<Packet> = None;
             loop {
                 select! {
-                    _ = MqttClient::keep_alive_timer(keep_alive), if keep_alive_enabled => {
+                    _ = MqttClient::keep_alive_timer(session.last_active(), keep_alive), if keep_alive_enabled && !keep_alive.is_zero() => {
                         match session.handle_keep_alive().await {
                             Ok(_) => {
                                 // do nothing
@@ -478,8 +478,9 @@ impl MqttClient {
         Ok(())
     }
 
-    async fn keep_alive_timer(keep_alive: Duration) {
-        tokio::time::sleep(keep_alive).await;
+    /// Completes when nothing was sent for the keep alive interval
+    async fn keep_alive_timer(last_active: tokio::time::Instant, keep_alive: Duration) {
+        tokio::time::sleep_until(last_active + keep_alive).await;
     }
 
     /// Retries delivery of a previously-undeliverable packet to its filtered
diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index d40f093..28afc56 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -120,7 +120,7 @@ impl SessionState {
 pub(crate) struct ClientSession {
     connected: Arc<RwLock<bool>>,
     packet_stream: vaux_async::stream::PacketStream,
-    last_active: std::time::Instant,
+    last_active: tokio::time::Instant,
     state: SessionState,
     usable: bool,
 }
@@ -146,7 +146,7 @@ impl ClientSession {
                 None,
                 Some(state.max_packet_size),
             ),
-            last_active: std::time::Instant::now(),
+            last_active: tokio::time::Instant::now(),
             state,
             usable: true,
         })
@@ -194,7 +194,13 @@ impl ClientSession {
             ));
         }
         let mut connect = Connect::default();
-        connect.keep_alive = self.state.keep_alive.read().await.as_secs() as u16;
+        connect.keep_alive = self
+            .state
+            .keep_alive
+            .read()
+            .await
+            .as_secs()
+            .min(u16::MAX as u64) as u16;
         connect.set_clean_start(clean_start);
         {
             let set_id = self.state.client_id.lock().await;
@@ -708,17 +714,23 @@ impl ClientSession {
 
     pub(crate) async fn handle_keep_alive(&mut self) -> Result<(), MqttError> {
         let ping = Packet::PingRequest(Default::default());
-        self.send_packet(ping).await?;
-        // packet sent, update last active time
-        self.last_active = std::time::Instant::now();
-        // }
-        Ok(())
+        self.send_packet(ping).await
     }
 
     async fn send_packet(&mut self, mut packet: Packet) -> Result<(), MqttError> {
         self.packet_stream
             .write(&mut packet)
             .await
-            .map_err(|_| MqttError::new("unable to write packet to stream", ErrorKind::Transport))
+            .map_err(|_| {
+                MqttError::new("unable to write packet to stream", ErrorKind::Transport)
+            })?;
+        // packet sent, update last active time
+        self.last_active = tokio::time::Instant::now();
+        Ok(())
+    }
+
+    /// The time the last packet was sent
+    pub(crate) fn last_active(&self) -> tokio::time::Instant {
+        self.last_active
     }
 }
-- 
2.43.0


From 5b2ba181805343c4890b3d5a3b916bc6aa689859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:58 +0000
Subject: [PATCH 35/79] fix: respect the receive maximum and complete QoS flows
 in the client

---
 vaux-client/src/builder.rs |   2 +-
 vaux-client/src/session.rs | 569 +++++++++++++++----------------------
 2 files changed, 237 insertions(+), 334 deletions(-)

diff --git a/vaux-client/src/builder.rs b/vaux-client/src/builder.rs
index 1ec76e6..63b0487 100644
--- a/vaux-client/src/builder.rs
+++ b/vaux-client/src/builder.rs
@@ -85,7 +85,7 @@ impl ClientBuilder {
     }
 
     pub fn with_receive_max(mut self, receive_max: u16) -> Self {
-        self.state.qos_recv_remaining = receive_max as usize;
+        self.state.qos_recv_max = receive_max.max(1) as usize;
         self
     }
 
diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index 28afc56..175ecab 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -1,6 +1,10 @@
 use crate::{ErrorKind, MqttClient, MqttError};
 use std::mem;
-use std::{collections::HashMap, sync::Arc, time::Duration};
+use std::{
+    collections::{HashMap, VecDeque},
+    sync::Arc,
+    time::Duration,
+};
 use tokio::sync::{Mutex, RwLock};
 use vaux_mqtt::WillMessage;
 use vaux_mqtt::publish::Publish;
@@ -14,6 +18,7 @@ const DEFAULT_MAX_PACKET_SIZE: usize = 64 * 1024;
 const DEFAULT_CLIENT_ID_PREFIX: &str = "vaux-client";
 const DEFAULT_CLIENT_KEEP_ALIVE: Duration = Duration::from_secs(60);
 const DEFAULT_SESSION_EXPIRY: Duration = Duration::from_secs(600);
+const MAX_QUEUED_PACKETS: usize = u16::MAX as usize;
 
 #[allow(clippy::enum_variant_names)]
 #[derive(Debug, Copy, Clone, Hash, Eq, PartialEq)]
@@ -26,7 +31,6 @@ enum QoSPacket {
 
 #[derive(Debug)]
 struct QoSPacketState {
-    packet_id: u16,
     #[allow(dead_code)]
     packet: Option<Packet>,
     next: QoSPacket,
@@ -35,7 +39,6 @@ struct QoSPacketState {
 impl QoSPacketState {
     pub fn new_qos1(packet: Packet) -> Self {
         Self {
-            packet_id: 0,
             packet: Some(packet),
             next: QoSPacket::PubAck,
         }
@@ -43,28 +46,10 @@ impl QoSPacketState {
 
     pub fn new_qos2(packet: Packet) -> Self {
         Self {
-            packet_id: 0,
             packet: Some(packet),
             next: QoSPacket::PubRec,
         }
     }
-
-    pub fn next(self) -> Option<Self> {
-        match self.next {
-            QoSPacket::PubAck => None,
-            QoSPacket::PubRec => Some(Self {
-                packet_id: self.packet_id,
-                packet: None,
-                next: QoSPacket::PubRel,
-            }),
-            QoSPacket::PubRel => Some(Self {
-                packet_id: self.packet_id,
-                packet: None,
-                next: QoSPacket::PubComp,
-            }),
-            QoSPacket::PubComp => None,
-        }
-    }
 }
 
 #[derive(Debug)]
@@ -73,10 +58,14 @@ pub struct SessionState {
     pub(crate) keep_alive: Arc<RwLock<Duration>>,
     pub(crate) session_expiry: Arc<RwLock<Duration>>,
 
-    pub(crate) qos_send_remaining: usize,
+    // QoS packets the server accepts before it acknowledges the first of them
+    pub(crate) qos_send_max: usize,
     pending_qos_send: HashMap<u16, QoSPacketState>,
-    pub(crate) qos_recv_remaining: usize,
+    // QoS packets the client accepts before it acknowledges the first of them
+    pub(crate) qos_recv_max: usize,
     pending_qos_recv: HashMap<u16, QoSPacketState>,
+    // packets waiting until the server accepts another QoS packet
+    queued: VecDeque<Publish>,
 
     pub(crate) max_packet_size: usize,
     pub(crate) auto_packet_id: bool,
@@ -102,10 +91,11 @@ impl SessionState {
             )))),
             keep_alive: Arc::new(RwLock::new(DEFAULT_CLIENT_KEEP_ALIVE)),
             session_expiry: Arc::new(RwLock::new(DEFAULT_SESSION_EXPIRY)),
-            qos_send_remaining: u16::MAX as usize,
+            qos_send_max: u16::MAX as usize,
             pending_qos_send: HashMap::new(),
-            qos_recv_remaining: u16::MAX as usize,
+            qos_recv_max: u16::MAX as usize,
             pending_qos_recv: HashMap::new(),
+            queued: VecDeque::new(),
 
             max_packet_size: DEFAULT_MAX_PACKET_SIZE,
             auto_packet_id: true,
@@ -210,6 +200,9 @@ impl ClientSession {
         }
         connect
             .set_session_expiry_interval(self.state.session_expiry.read().await.as_secs() as u32);
+        if self.state.qos_recv_max < u16::MAX as usize {
+            connect.receive_maximum = Some(self.state.qos_recv_max as u16);
+        }
         if let Some((username, password)) = credentials {
             connect.set_username(Some(username));
             connect.set_password(Some(password.into_bytes()));
@@ -288,69 +281,49 @@ impl ClientSession {
 
     pub(crate) async fn write_next(&mut self, packet: Packet) -> Result<(), MqttError> {
         match packet {
-            Packet::Publish(mut p) => {
-                if p.qos() == QoSLevel::AtLeastOnce || p.qos() == QoSLevel::ExactlyOnce {
-                    // check the pending qos for available space
-                    if self.state.pending_qos_send.len() >= u16::MAX as usize
-                        || self.state.qos_send_remaining == 0
-                    {
-                        return Err(MqttError::new(
-                            "pending QoS packets full",
-                            ErrorKind::Protocol(Reason::ProtocolErr),
-                        ));
-                    }
-                    // verify client set packet ID is not already in use
-                    if let Some(packet_id) = p.packet_id() {
-                        if self.state.pending_qos_send.contains_key(&packet_id) {
-                            return Err(MqttError::new(
-                                "packet ID already in use",
-                                ErrorKind::Protocol(Reason::MalformedPacket),
-                            ));
-                        }
-                    } else if self.state.auto_packet_id {
-                        // if auto packet ID is enabled, generate a packet ID
-                        self.state.last_packet_id = self.state.last_packet_id.wrapping_add(1);
-                        // verify the packet ID is valid and not already in use
-                        // TODO improve in-use packet ID managment
-                        while self.state.last_packet_id == 0
-                            || self
-                                .state
-                                .pending_qos_send
-                                .contains_key(&self.state.last_packet_id)
-                        {
-                            self.state.last_packet_id = self.state.last_packet_id.wrapping_add(1);
-                        }
-                        p.set_packet_id(Some(self.state.last_packet_id))
-                            .map_err(|e| {
-                                MqttError::new(
-                                    &format!("{e}"),
-                                    ErrorKind::Protocol(Reason::MalformedPacket),
-                                )
-                            })?;
-                    } else {
-                        // if no packet ID is set and auto packet ID is disabled, return an error
-                        return Err(MqttError::new(
-                            "no packet ID for QoS > 0",
-                            ErrorKind::Protocol(Reason::MalformedPacket),
-                        ));
-                    }
-                    match p.qos() {
-                        QoSLevel::AtLeastOnce => {
-                            self.state.pending_qos_send.insert(
-                                p.packet_id().unwrap(),
-                                QoSPacketState::new_qos1(Packet::Publish(p.clone())),
-                            );
-                        }
-                        QoSLevel::ExactlyOnce => {
-                            self.state.pending_qos_send.insert(
-                                p.packet_id().unwrap(),
-                                QoSPacketState::new_qos2(Packet::Publish(p.clone())),
-                            );
-                        }
-                        _ => {}
-                    }
+            Packet::Publish(p) => {
+                if self.state.queued.is_empty() && self.can_send(&p) {
+                    self.send_publish(p).await
+                } else if self.state.queued.len() < MAX_QUEUED_PACKETS {
+                    self.state.queued.push_back(p);
+                    Ok(())
+                } else {
+                    Err(MqttError::new(
+                        "pending QoS packets full",
+                        ErrorKind::Protocol(Reason::ProtocolErr),
+                    ))
+                }
+            }
+            Packet::PubAck(ref ack) => {
+                let packet_id = ack.packet_id;
+                self.send_packet(packet).await?;
+                self.state.pending_qos_recv.remove(&packet_id);
+                Ok(())
+            }
+            Packet::PubRec(ref ack) => {
+                let packet_id = ack.packet_id;
+                let refused = ack.reason().unwrap_or_default() as u8 >= Reason::UnspecifiedErr as u8;
+                self.send_packet(packet).await?;
+                if refused {
+                    self.state.pending_qos_recv.remove(&packet_id);
+                } else if let Some(p) = self.state.pending_qos_recv.get_mut(&packet_id) {
+                    p.next = QoSPacket::PubRel;
                 }
-                self.send_packet(Packet::Publish(p)).await
+                Ok(())
+            }
+            Packet::PubRel(ref ack) => {
+                let packet_id = ack.packet_id;
+                self.send_packet(packet).await?;
+                if let Some(p) = self.state.pending_qos_send.get_mut(&packet_id) {
+                    p.next = QoSPacket::PubComp;
+                }
+                Ok(())
+            }
+            Packet::PubComp(ref ack) => {
+                let packet_id = ack.packet_id;
+                self.send_packet(packet).await?;
+                self.state.pending_qos_recv.remove(&packet_id);
+                Ok(())
             }
             Packet::Disconnect(d) => {
                 self.send_packet(Packet::Disconnect(d)).await?;
@@ -363,6 +336,80 @@ impl ClientSession {
         }
     }
 
+    /// Returns true if the server accepts the packet now
+    fn can_send(&self, publish: &Publish) -> bool {
+        publish.qos() == QoSLevel::AtMostOnce
+            || self.state.pending_qos_send.len() < self.state.qos_send_max
+    }
+
+    async fn send_publish(&mut self, mut p: Publish) -> Result<(), MqttError> {
+        if p.qos() != QoSLevel::AtMostOnce {
+            // verify client set packet ID is not already in use
+            if let Some(packet_id) = p.packet_id() {
+                if self.state.pending_qos_send.contains_key(&packet_id) {
+                    return Err(MqttError::new(
+                        "packet ID already in use",
+                        ErrorKind::Protocol(Reason::MalformedPacket),
+                    ));
+                }
+            } else if self.state.auto_packet_id {
+                // if auto packet ID is enabled, generate a packet ID
+                self.state.last_packet_id = self.state.last_packet_id.wrapping_add(1);
+                // verify the packet ID is valid and not already in use
+                // TODO improve in-use packet ID managment
+                while self.state.last_packet_id == 0
+                    || self
+                        .state
+                        .pending_qos_send
+                        .contains_key(&self.state.last_packet_id)
+                {
+                    self.state.last_packet_id = self.state.last_packet_id.wrapping_add(1);
+                }
+                p.set_packet_id(Some(self.state.last_packet_id))
+                    .map_err(|e| {
+                        MqttError::new(
+                            &format!("{e}"),
+                            ErrorKind::Protocol(Reason::MalformedPacket),
+                        )
+                    })?;
+            } else {
+                // if no packet ID is set and auto packet ID is disabled, return an error
+                return Err(MqttError::new(
+                    "no packet ID for QoS > 0",
+                    ErrorKind::Protocol(Reason::MalformedPacket),
+                ));
+            }
+            match p.qos() {
+                QoSLevel::AtLeastOnce => {
+                    self.state.pending_qos_send.insert(
+                        p.packet_id().unwrap(),
+                        QoSPacketState::new_qos1(Packet::Publish(p.clone())),
+                    );
+                }
+                QoSLevel::ExactlyOnce => {
+                    self.state.pending_qos_send.insert(
+                        p.packet_id().unwrap(),
+                        QoSPacketState::new_qos2(Packet::Publish(p.clone())),
+                    );
+                }
+                _ => {}
+            }
+        }
+        self.send_packet(Packet::Publish(p)).await
+    }
+
+    /// Sends queued packets in order until the server accepts no more of them
+    async fn send_queued(&mut self) -> Result<(), MqttError> {
+        while let Some(publish) = self.state.queued.pop_front() {
+            if !self.can_send(&publish) {
+                self.state.queued.push_front(publish);
+                break;
+            }
+            self.send_publish(publish).await?;
+        }
+        Ok(())
+    }
+
     pub(crate) async fn handle_packet(
         &mut self,
         packet: Packet,
@@ -381,175 +428,60 @@ impl ClientSession {
                 ));
             }
             Packet::Publish(publish) => {
-                self.handle_recv_publish(publish.clone()).await?;
+                packet_to_consumer = self.handle_recv_publish(publish).await?;
             }
             Packet::PubAck(puback) => {
-                if let Some(p) = self.state.pending_qos_send.get(&puback.packet_id) {
-                    match p.next {
-                        QoSPacket::PubAck => {
-                            self.state.pending_qos_send.remove(&puback.packet_id);
-                            self.state.qos_send_remaining += 1;
-                        }
-                        _ => {
-                            // protocol error, unexpected packet - disconnect
-                            return Err(MqttError::new(
-                                "unexpected control packet",
-                                ErrorKind::Protocol(Reason::ProtocolErr),
-                            ));
-                        }
-                    }
-                } else {
-                    // protocol error, unexpected packet - disconnect
-                    return Err(MqttError::new(
-                        "unexpected packet",
-                        ErrorKind::Protocol(Reason::ProtocolErr),
-                    ));
-                }
+                self.expect_send(puback.packet_id, QoSPacket::PubAck)?;
+                self.state.pending_qos_send.remove(&puback.packet_id);
+                self.send_queued().await?;
             }
             Packet::PubRec(pubrec) => {
                 let packet_id = pubrec.packet_id;
-                if let Some(p) = self.state.pending_qos_send.remove(&packet_id) {
-                    match p.next {
-                        QoSPacket::PubRec => {
-                            if self.state.auto_ack {
-                                // insert PUBREL into pending qos
-                                let pubrec_state = p.next().ok_or(MqttError::new(
-                                    "invalid session state",
-                                    ErrorKind::Session,
-                                ))?;
-                                self.state.pending_qos_send.insert(packet_id, pubrec_state);
-                                // create the PUBREL packet
-                                let pubrel = PubResp::new_pubrel_with_packet_id(packet_id);
-                                match self.send_packet(Packet::PubRel(pubrel)).await {
-                                    Ok(_) => {
-                                        // remove from pending qos
-                                        if let Some(pubrec_packet) =
-                                            self.state.pending_qos_send.remove(&packet_id)
-                                        {
-                                            match pubrec_packet.next {
-                                                QoSPacket::PubRel => {
-                                                    self.state.pending_qos_send.insert(
-                                                        packet_id,
-                                                        pubrec_packet.next().ok_or(
-                                                            MqttError::new(
-                                                                "invalid session state",
-                                                                ErrorKind::Session,
-                                                            ),
-                                                        )?,
-                                                    );
-                                                }
-                                                _ => {
-                                                    // protocol error, unexpected packet
-                                                    // re-insert into pending qos without change
-                                                    self.state
-                                                        .pending_qos_send
-                                                        .insert(packet_id, pubrec_packet);
-                                                    return Err(MqttError::new(
-                                                        "unexpected control packet",
-                                                        ErrorKind::Protocol(Reason::ProtocolErr),
-                                                    ));
-                                                }
-                                            }
-                                        }
-                                    }
-                                    Err(_) => {
-                                        return Err(MqttError::new(
-                                            "unable to send pub rel",
-                                            ErrorKind::Transport,
-                                        ));
-                                    }
-                                }
-                            }
-                        }
-                        _ => {
-                            // protocol error, unexpected packet
-                            // re-insert into pending qos without change
-                            self.state.pending_qos_send.insert(packet_id, p);
-                            // TODO disconnect
-                            return Err(MqttError::new(
-                                "unexpected control packet",
-                                ErrorKind::Protocol(Reason::ProtocolErr),
-                            ));
-                        }
-                    }
+                let auto_ack = self.state.auto_ack;
+                let state = self.expect_send(packet_id, QoSPacket::PubRec)?;
+                if pubrec.reason().unwrap_or_default() as u8 >= Reason::UnspecifiedErr as u8 {
+                    // refused by the server, there is nothing to release
+                    self.state.pending_qos_send.remove(&packet_id);
+                    self.send_queued().await?;
                 } else {
-                    // protocol error, unexpected packet
-                    // TODO disconnect
-                    return Err(MqttError::new(
-                        "unexpected packet",
-                        ErrorKind::Protocol(Reason::ProtocolErr),
-                    ));
+                    // the packet itself is not needed any more
+                    state.packet = None;
+                    state.next = QoSPacket::PubRel;
+                    if auto_ack {
+                        state.next = QoSPacket::PubComp;
+                        let pubrel = PubResp::new_pubrel_with_packet_id(packet_id);
+                        self.send_packet(Packet::PubRel(pubrel)).await?;
+                    }
                 }
             }
             Packet::PubRel(pubrel) => {
                 let packet_id = pubrel.packet_id;
-                if let Some(p) = self.state.pending_qos_recv.remove(&packet_id) {
-                    match p.next {
-                        QoSPacket::PubRel => {
-                            if self.state.auto_ack {
-                                let pubcomp = PubResp::new_pubcomp_with_packet_id(packet_id);
-                                match self.send_packet(Packet::PubComp(pubcomp)).await {
-                                    Ok(_) => {
-                                        // remove from pending qos
-                                        self.state.pending_qos_recv.remove(&packet_id);
-                                        self.state.qos_recv_remaining += 1;
-                                    }
-                                    Err(_) => {
-                                        // re-insert into pending qos without change
-                                        self.state.pending_qos_recv.insert(packet_id, p);
-                                        return Err(MqttError::new(
-                                            "unable to send pub comp",
-                                            ErrorKind::Transport,
-                                        ));
-                                    }
-                                }
-                            }
-                        }
-                        _ => {
-                            // protocol error, unexpected packet
-                            // re-insert into pending qos without change
-                            self.state.pending_qos_recv.insert(packet_id, p);
-                            return Err(MqttError::new(
-                                "unexpected packet",
-                                ErrorKind::Protocol(Reason::ProtocolErr),
-                            ));
+                match self.state.pending_qos_recv.get_mut(&packet_id) {
+                    Some(state) if state.next == QoSPacket::PubRel => {
+                        if self.state.auto_ack {
+                            let pubcomp = PubResp::new_pubcomp_with_packet_id(packet_id);
+                            self.send_packet(Packet::PubComp(pubcomp)).await?;
+                            self.state.pending_qos_recv.remove(&packet_id);
+                        } else {
+                            state.next = QoSPacket::PubComp;
                         }
                     }
-                } else {
-                    // protocol error, unexpected packet
-                    // TODO disconnect
-                    return Err(MqttError::new(
-                        "unexpected packet",
-                        ErrorKind::Protocol(Reason::ProtocolErr),
-                    ));
+                    // resent by the server, the client application still has to complete it
+                    Some(state) if state.next == QoSPacket::PubComp => packet_to_consumer = false,
+                    _ => {
+                        // protocol error, unexpected packet
+                        // TODO disconnect
+                        return Err(MqttError::new(
+                            "unexpected packet",
+                            ErrorKind::Protocol(Reason::ProtocolErr),
+                        ));
+                    }
                 }
             }
             Packet::PubComp(pubcomp) => {
-                let packet_id = pubcomp.packet_id;
-                if let Some(p) = self.state.pending_qos_send.remove(&packet_id) {
-                    match p.next {
-                        QoSPacket::PubComp => {
-                            //  do nothing - removed from pending qos
-                            self.state.qos_send_remaining += 1;
-                        }
-                        _ => {
-                            // protocol error, unexpected packet
-                            // re-insert into pending qos without change
-                            self.state.pending_qos_send.insert(packet_id, p);
-                            return Err(MqttError::new(
-                                "unexpected control packet",
-                                ErrorKind::Protocol(Reason::ProtocolErr),
-                            ));
-                        }
-                    }
-                } else {
-                    // protocol error, unexpected packet
-                    // TODO disconnect");
-                    return Err(MqttError::new(
-                        "unexpected packet",
-                        ErrorKind::Protocol(Reason::ProtocolErr),
-                    ));
-                }
+                self.expect_send(pubcomp.packet_id, QoSPacket::PubComp)?;
+                self.state.pending_qos_send.remove(&pubcomp.packet_id);
+                self.send_queued().await?;
             }
             _ => {}
         }
@@ -605,111 +537,82 @@ impl ClientSession {
             *session_expiry = Duration::from_secs(u64::from(server_session_expiry));
         }
         // set the server assigned receive maximum
-        if let Some(receive_max) = connack.receive_maximum {
-            self.state.qos_send_remaining = receive_max as usize;
-        }
+        self.state.qos_send_max = connack.receive_maximum.unwrap_or(u16::MAX) as usize;
         Ok(connack)
     }
 
-    async fn handle_recv_publish(&mut self, publish: Publish) -> crate::Result<()> {
-        match publish.qos() {
-            vaux_mqtt::QoSLevel::AtMostOnce => Ok(()),
+    /// Returns the state of the sent packet if the acknowledgement is the one it waits for
+    fn expect_send(
+        &mut self,
+        packet_id: u16,
+        received: QoSPacket,
+    ) -> crate::Result<&mut QoSPacketState> {
+        match self.state.pending_qos_send.get_mut(&packet_id) {
+            Some(state) if state.next == received => Ok(state),
+            // protocol error, unexpected packet
+            // TODO disconnect
+            _ => Err(MqttError::new(
+                "unexpected control packet",
+                ErrorKind::Protocol(Reason::ProtocolErr),
+            )),
+        }
+    }
 
-            vaux_mqtt::QoSLevel::AtLeastOnce => {
-                if self.state.qos_recv_remaining == 0 {
-                    // protocol error, no more QoS packets allowed
-                    return Err(MqttError::new(
-                        "no more QoS packets allowed",
-                        ErrorKind::Protocol(Reason::ProtocolErr),
-                    ));
-                }
-                // insert into pending receive QoS
+    /// Handles a received PUBLISH, returns true if it is passed on to the client application
+    async fn handle_recv_publish(&mut self, publish: &Publish) -> crate::Result<bool> {
+        if publish.qos() == QoSLevel::AtMostOnce {
+            return Ok(true);
+        }
+        let Some(packet_id) = publish.packet_id() else {
+            // TODO send disconnect with reason code
+            let _ = self.packet_stream.shutdown().await;
+            return Err(MqttError::new(
+                "protocol error, packet ID required with QoS > 0",
+                ErrorKind::Protocol(Reason::MalformedPacket),
+            ));
+        };
+        let received = self.state.pending_qos_recv.get(&packet_id).map(|p| p.next);
+        if received.is_none() && self.state.pending_qos_recv.len() >= self.state.qos_recv_max {
+            // protocol error, no more QoS packets allowed
+            return Err(MqttError::new(
+                "no more QoS packets allowed",
+                ErrorKind::Protocol(Reason::ProtocolErr),
+            ));
+        }
+        if publish.qos() == QoSLevel::AtLeastOnce {
+            if self.state.auto_ack {
+                let puback = PubResp::new_puback_with_packet_id(packet_id);
+                self.send_packet(Packet::PubAck(puback)).await?;
+            } else {
+                // pending until the client application sends the response
                 self.state.pending_qos_recv.insert(
-                    publish.packet_id().unwrap(),
+                    packet_id,
                     QoSPacketState::new_qos1(Packet::Publish(publish.clone())),
                 );
-                if self.state.auto_ack {
-                    let puback = if let Some(packet_id) = publish.packet_id() {
-                        PubResp::new_puback_with_packet_id(packet_id)
-                    } else {
-                        // TODO send disconnect with reason cod
-                        let _ = self.packet_stream.shutdown().await;
-                        return Err(MqttError::new(
-                            "protocol error, packet ID required with QoS > 0",
-                            ErrorKind::Protocol(Reason::MalformedPacket),
-                        ));
-                    };
-                    self.state.qos_recv_remaining -= 1;
-                    match self.send_packet(Packet::PubAck(puback)).await {
-                        Ok(_) => {
-                            self.state
-                                .pending_qos_recv
-                                .remove(&publish.packet_id().unwrap());
-                            self.state.qos_recv_remaining += 1;
-                            Ok(())
-                        }
-                        Err(_) => {
-                            // TODO handle the pub ack next time through
-                            // push a message to the last error channel
-                            Err(MqttError::new(
-                                "unable to send pub ack",
-                                ErrorKind::Transport,
-                            ))
-                        }
-                    }
-                } else {
-                    // not auto ack, remaining - 1 until client app sends response
-                    self.state.qos_recv_remaining -= 1;
-                    Ok(())
-                }
             }
-            vaux_mqtt::QoSLevel::ExactlyOnce => {
+            return Ok(true);
+        }
+        match received {
+            // the client application has the packet but not acknowledged it yet
+            Some(QoSPacket::PubRec) => return Ok(false),
+            Some(QoSPacket::PubRel) => {}
+            _ => {
                 self.state.pending_qos_recv.insert(
-                    publish.packet_id().unwrap(),
+                    packet_id,
                     QoSPacketState::new_qos2(Packet::Publish(publish.clone())),
                 );
-                // decrement the remaining QoS packets until ack  sent
-                self.state.qos_recv_remaining -= 1;
-                if self.state.auto_ack {
-                    let pubrec = if let Some(packet_id) = publish.packet_id() {
-                        PubResp::new_pubrec_with_packet_id(packet_id)
-                    } else {
-                        // protocol error, packet ID required with QoS > 0
-                        let _ = self.packet_stream.shutdown().await;
-                        return Err(MqttError::new(
-                            "protocol error, packet ID required with QoS > 0",
-                            ErrorKind::Protocol(Reason::MalformedPacket),
-                        ));
-                    };
-                    match self.send_packet(Packet::PubRec(pubrec)).await {
-                        Ok(_) => {
-                            // move to next state and re-insert into pending qos
-                            let next = self
-                                .state
-                                .pending_qos_recv
-                                .remove(&publish.packet_id().unwrap())
-                                .map(|p| p.next().unwrap())
-                                .ok_or(MqttError::new(
-                                    "invalid session state",
-                                    ErrorKind::Session,
-                                ))?;
-                            self.state
-                                .pending_qos_recv
-                                .insert(publish.packet_id().unwrap(), next);
-                        }
-                        Err(_) => {
-                            // TODO handle the pub rec next time through
-                            // push a message to the last error channel
-                            return Err(MqttError::new(
-                                "unable to send pub rec",
-                                ErrorKind::Transport,
-                            ));
-                        }
-                    }
-                }
-                Ok(())
             }
         }
+        let resent = received == Some(QoSPacket::PubRel);
+        if self.state.auto_ack || resent {
+            let pubrec = PubResp::new_pubrec_with_packet_id(packet_id);
+            self.send_packet(Packet::PubRec(pubrec)).await?;
+            if let Some(state) = self.state.pending_qos_recv.get_mut(&packet_id) {
+                state.packet = None;
+                state.next = QoSPacket::PubRel;
+            }
+        }
+        Ok(!resent)
     }
 
     pub(crate) async fn handle_keep_alive(&mut self) -> Result<(), MqttError> {
-- 
2.43.0


From f5a7588ee875759719114bb4fd8eca017b076afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:16 +0000
Subject: [PATCH 36/79] fix: resend unacknowledged packets when the client
 resumes a session

---
 vaux-client/src/session.rs | 89 ++++++++++++++++++++++++--------------
 1 file changed, 56 insertions(+), 33 deletions(-)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index 175ecab..4652f16 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -31,23 +31,22 @@ enum QoSPacket {
 
 #[derive(Debug)]
 struct QoSPacketState {
-    #[allow(dead_code)]
-    packet: Option<Packet>,
+    // the order in which packets were sent
+    sequence: u64,
+    packet: Option<Publish>,
     next: QoSPacket,
 }
 
 impl QoSPacketState {
-    pub fn new_qos1(packet: Packet) -> Self {
+    pub fn new(publish: &Publish) -> Self {
         Self {
-            packet: Some(packet),
-            next: QoSPacket::PubAck,
-        }
-    }
-
-    pub fn new_qos2(packet: Packet) -> Self {
-        Self {
-            packet: Some(packet),
-            next: QoSPacket::PubRec,
+            sequence: 0,
+            packet: Some(publish.clone()),
+            next: if publish.qos() == QoSLevel::ExactlyOnce {
+                QoSPacket::PubRec
+            } else {
+                QoSPacket::PubAck
+            },
         }
     }
 }
@@ -70,6 +69,7 @@ pub struct SessionState {
     pub(crate) max_packet_size: usize,
     pub(crate) auto_packet_id: bool,
     pub(crate) last_packet_id: u16,
+    last_sequence: u64,
     pub(crate) auto_ack: bool,
     pub(crate) pingresp: bool,
     pub(crate) keep_alive_enabled: bool,
@@ -100,6 +100,7 @@ impl SessionState {
             max_packet_size: DEFAULT_MAX_PACKET_SIZE,
             auto_packet_id: true,
             last_packet_id: 0,
+            last_sequence: 0,
             auto_ack: true,
             pingresp: false,
             keep_alive_enabled: true,
@@ -379,23 +380,46 @@ impl ClientSession {
                     ErrorKind::Protocol(Reason::MalformedPacket),
                 ));
             }
-            match p.qos() {
-                QoSLevel::AtLeastOnce => {
-                    self.state.pending_qos_send.insert(
-                        p.packet_id().unwrap(),
-                        QoSPacketState::new_qos1(Packet::Publish(p.clone())),
-                    );
-                }
-                QoSLevel::ExactlyOnce => {
-                    self.state.pending_qos_send.insert(
-                        p.packet_id().unwrap(),
-                        QoSPacketState::new_qos2(Packet::Publish(p.clone())),
-                    );
+            self.state.last_sequence += 1;
+            let mut state = QoSPacketState::new(&p);
+            state.sequence = self.state.last_sequence;
+            self.state
+                .pending_qos_send
+                .insert(p.packet_id().unwrap(), state);
+        }
+        self.send_packet(Packet::Publish(p)).await
+    }
+
+    /// Resumes the packets of the session that were not completed on a previous connection:
+    /// resends them in order if the server still has the session, else forgets them.
+    async fn resume_pending(&mut self, session_present: bool) -> Result<(), MqttError> {
+        if !session_present {
+            self.state.pending_qos_send.clear();
+            self.state.pending_qos_recv.clear();
+            return self.send_queued().await;
+        }
+        let mut pending: Vec<_> = self.state.pending_qos_send.iter().collect();
+        pending.sort_by_key(|(_, state)| state.sequence);
+        let mut packets = Vec::new();
+        for (packet_id, state) in pending {
+            match (&state.packet, state.next) {
+                (Some(publish), QoSPacket::PubAck | QoSPacket::PubRec) => {
+                    let mut publish = publish.clone();
+                    publish.set_dup(true).map_err(|e| {
+                        MqttError::new(&format!("{e}"), ErrorKind::Session)
+                    })?;
+                    packets.push(Packet::Publish(publish));
                 }
+                (_, QoSPacket::PubComp) => packets.push(Packet::PubRel(
+                    PubResp::new_pubrel_with_packet_id(*packet_id),
+                )),
                 _ => {}
             }
         }
-        self.send_packet(Packet::Publish(p)).await
+        for packet in packets {
+            self.send_packet(packet).await?;
+        }
+        self.send_queued().await
     }
 
     /// Sends queued packets in order until the server accepts no more of them
@@ -538,6 +562,7 @@ impl ClientSession {
         }
         // set the server assigned receive maximum
         self.state.qos_send_max = connack.receive_maximum.unwrap_or(u16::MAX) as usize;
+        self.resume_pending(connack.session_present()).await?;
         Ok(connack)
     }
 
@@ -585,10 +610,9 @@ impl ClientSession {
                 self.send_packet(Packet::PubAck(puback)).await?;
             } else {
                 // pending until the client application sends the response
-                self.state.pending_qos_recv.insert(
-                    packet_id,
-                    QoSPacketState::new_qos1(Packet::Publish(publish.clone())),
-                );
+                self.state
+                    .pending_qos_recv
+                    .insert(packet_id, QoSPacketState::new(publish));
             }
             return Ok(true);
         }
@@ -597,10 +621,9 @@ impl ClientSession {
             Some(QoSPacket::PubRec) => return Ok(false),
             Some(QoSPacket::PubRel) => {}
             _ => {
-                self.state.pending_qos_recv.insert(
-                    packet_id,
-                    QoSPacketState::new_qos2(Packet::Publish(publish.clone())),
-                );
+                self.state
+                    .pending_qos_recv
+                    .insert(packet_id, QoSPacketState::new(publish));
             }
         }
         let resent = received == Some(QoSPacket::PubRel);
-- 
2.43.0


From 60fb602e12c6ea31db442cd507c99c06ac67b8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:17 +0000
Subject: [PATCH 37/79] fix: limit the time the client waits for CONNACK

---
 vaux-client/src/session.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index 4652f16..1496773 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -219,9 +219,13 @@ impl ClientSession {
 
         match self.packet_stream.write(&mut connect_packet).await {
             Ok(_) => {
-                let start = std::time::Instant::now();
+                let start = tokio::time::Instant::now();
                 while start.elapsed() < max_connect_wait {
-                    match self.read_next().await {
+                    let remaining = max_connect_wait.saturating_sub(start.elapsed());
+                    let Ok(result) = tokio::time::timeout(remaining, self.read_next()).await else {
+                        break;
+                    };
+                    match result {
                         Ok(Some(packet)) => match packet {
                             Packet::ConnAck(connack) => {
                                 return self.handle_connack(connack).await;
-- 
2.43.0


From ac8f0c2576a8e0a6b5957b703e529c415f926488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:18 +0000
Subject: [PATCH 38/79] fix: allow the client to start again after it failed to
 connect

---
 vaux-client/src/client.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/vaux-client/src/client.rs b/vaux-client/src/client.rs
index 2d6ad10..8c3be8d 100644
--- a/vaux-client/src/client.rs
+++ b/vaux-client/src/client.rs
@@ -302,10 +302,6 @@ impl MqttClient {
         }
         let max_connect_wait = self.max_connect_wait;
         let will_message = self.will_message.clone();
-        let mut packet_in_receiver = self.packet_in.1.take().ok_or(MqttError::new(
-            "packet_in channel closed",
-            ErrorKind::Transport,
-        ))?;
         let packet_out = self.packet_out.0.clone();
         let credentials = self.connection.as_ref().unwrap().credentials().clone();
         let connected = self.connected.clone();
@@ -321,6 +317,11 @@ impl MqttClient {
                 }
             };
         }
+        // not taken before there is a connection, a failed start can be tried again
+        let mut packet_in_receiver = self.packet_in.1.take().ok_or(MqttError::new(
+            "packet_in channel closed",
+            ErrorKind::Transport,
+        ))?;
         let mut session = match ClientSession::new_from_client(self).await {
             Ok(s) => s,
             Err(e) => {
-- 
2.43.0


From 4c13131e3bbad53cfd210aa319d4116d1e2e6e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:07 +0000
Subject: [PATCH 39/79] fix: count the length of present but empty optional
 binary fields

The size calculation skipped Option<Vec<u8>> fields holding no bytes while
the encoder writes their two byte length, so a CONNECT packet with an empty
will payload or password announced a remaining length that is too small.
---
 vaux-macro/src/size.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/vaux-macro/src/size.rs b/vaux-macro/src/size.rs
index 570f88b..4c0bf9b 100644
--- a/vaux-macro/src/size.rs
+++ b/vaux-macro/src/size.rs
@@ -266,9 +266,7 @@ fn size_for_vec(
     if optional {
         quote! {
             if let Some(#field_name) = &self.#field_name {
-                if !#field_name.is_empty() {
-                    #size_prefix #field_size;
-                }
+                #size_prefix #field_size;
             }
         }
     } else {
-- 
2.43.0


From 0bebabacad1f42a86d14f45d528911519259ec26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:37 +0000
Subject: [PATCH 40/79] fix: flush the stream after writing a packet

A TLS stream keeps encrypted records the socket did not take at once in its
own buffer, so the last part of a large packet was only sent with the next
one.
---
 vaux-async/src/stream/packet.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vaux-async/src/stream/packet.rs b/vaux-async/src/stream/packet.rs
index c0f89cb..9e636c7 100644
--- a/vaux-async/src/stream/packet.rs
+++ b/vaux-async/src/stream/packet.rs
@@ -172,6 +172,10 @@ impl PacketStream {
         if let Err(e) = self.stream.write_all(&dest).await {
             return Err(Error::Io(e));
         }
+        // a TLS stream may hold back records the socket did not take
+        if let Err(e) = self.stream.flush().await {
+            return Err(Error::Io(e));
+        }
         Ok(())
     }
 
-- 
2.43.0


From 747c2821523ee301584bd3063a91c1c8cb323009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:22 +0000
Subject: [PATCH 41/79] fix: end broker connections whose client stops reading
 replies

---
 vaux-broker/src/lib.rs | 111 ++++++++++++++++++++++++++++-------------
 1 file changed, 76 insertions(+), 35 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 19abbbc..7978629 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -30,8 +30,9 @@ use vaux_mqtt::{
 };
 
 const INIT_STREAM_BUFFER_SIZE: usize = 4096;
-/// How long to wait for a client to take the DISCONNECT the broker closes its connection with
-const DISCONNECT_TIMEOUT: Duration = Duration::from_secs(5);
+/// How long to wait for a client to take the last packet before its connection is closed, or
+/// any packet before it has a session
+const WRITE_TIMEOUT: Duration = Duration::from_secs(5);
 /// How long to wait after a connection could not be accepted
 const ACCEPT_RETRY_DELAY: Duration = Duration::from_millis(100);
 
@@ -236,7 +237,7 @@ impl Broker {
             }
             Broker::release_session(session, *connection, &state).await;
         }
-        let _ = stream.shutdown().await;
+        let _ = tokio::time::timeout(WRITE_TIMEOUT, stream.shutdown()).await;
         result
     }
 
@@ -260,11 +261,10 @@ impl Broker {
                 ctrl = Broker::handle_control(&mut session_control) => {
                     if let Some(SessionControl::Deliver(publish)) = ctrl {
                         let mut packet = Packet::Publish(*publish);
-                        select! {
-                            result = stream.write(&mut packet) => result?,
-                            // part of the packet may be written, nothing else can follow it
-                            _ = Broker::close_requested(&mut close) => return Ok(()),
-                            _ = Broker::keep_alive_timer(last_received, keep_alive) => return Ok(()),
+                        if !Broker::write_until_closed(
+                            stream, &mut packet, &mut close, last_received, keep_alive,
+                        ).await? {
+                            return Ok(());
                         }
                     }
                 }
@@ -283,7 +283,16 @@ impl Broker {
                     last_received = Instant::now();
                     if let Some((session, connection)) = client_session {
                         let disconnect = matches!(packet, Packet::Disconnect(_));
-                        Broker::handle_packet(packet, stream, Arc::clone(session), *connection, state).await?;
+                        let reply = Broker::handle_packet(
+                            packet, stream, Arc::clone(session), *connection, state,
+                        ).await?;
+                        if let Some(mut reply) = reply {
+                            if !Broker::write_until_closed(
+                                stream, &mut reply, &mut close, last_received, keep_alive,
+                            ).await? {
+                                return Ok(());
+                            }
+                        }
                         if disconnect {
                             return Ok(());
                         }
@@ -292,11 +301,18 @@ impl Broker {
                         keep_alive = accepted.session.read().await.keep_alive();
                         session_control = Some(accepted.connection.control);
                         close = Some(accepted.connection.close);
-                        stream.write(&mut Packet::ConnAck(accepted.ack)).await?;
+                        let mut packets = vec![Packet::ConnAck(accepted.ack)];
                         for (packet_id, mut publish) in accepted.pending {
                             publish.set_dup(true).ok();
                             let _ = publish.set_packet_id(Some(packet_id));
-                            stream.write(&mut Packet::Publish(publish)).await?;
+                            packets.push(Packet::Publish(publish));
+                        }
+                        for mut packet in packets {
+                            if !Broker::write_until_closed(
+                                stream, &mut packet, &mut close, last_received, keep_alive,
+                            ).await? {
+                                return Ok(());
+                            }
                         }
                     }
                 }
@@ -339,10 +355,41 @@ impl Broker {
         std::future::pending().await
     }
 
+    /// Writes a packet to a client that may have stopped reading. False if the connection has
+    /// to end first: part of the packet may be written then, nothing else can follow it.
+    async fn write_until_closed(
+        stream: &mut PacketStream,
+        packet: &mut Packet,
+        close: &mut Option<watch::Receiver<Option<Reason>>>,
+        last_received: Instant,
+        keep_alive: Duration,
+    ) -> Result<bool, BrokerError> {
+        select! {
+            biased;
+            result = stream.write(packet) => {
+                result?;
+                Ok(true)
+            }
+            _ = Broker::close_requested(close) => Ok(false),
+            _ = Broker::keep_alive_timer(last_received, keep_alive) => Ok(false),
+        }
+    }
+
     /// Sends a DISCONNECT to a client that may have stopped reading
     async fn send_disconnect(stream: &mut PacketStream, reason: Reason) {
         let mut packet = Packet::Disconnect(Disconnect::new(reason));
-        let _ = tokio::time::timeout(DISCONNECT_TIMEOUT, stream.write(&mut packet)).await;
+        let _ = Broker::write_or_give_up(stream, &mut packet).await;
+    }
+
+    /// Writes a packet to a client without a session, which may have stopped reading
+    async fn write_or_give_up(
+        stream: &mut PacketStream,
+        packet: &mut Packet,
+    ) -> Result<(), BrokerError> {
+        tokio::time::timeout(WRITE_TIMEOUT, stream.write(packet))
+            .await
+            .map_err(|_| std::io::Error::from(std::io::ErrorKind::TimedOut))??;
+        Ok(())
     }
 
     async fn handle_packet(
@@ -351,18 +398,13 @@ impl Broker {
         session: Arc<RwLock<Session>>,
         connection: u64,
         state: &BrokerState,
-    ) -> Result<(), BrokerError> {
+    ) -> Result<Option<Packet>, BrokerError> {
         match packet {
-            Packet::PingRequest(_p) => {
-                let mut packet = PingResponse(PingResp::default());
-                stream.write(&mut packet).await?;
-                Ok(())
-            }
+            Packet::PingRequest(_p) => Ok(Some(PingResponse(PingResp::default()))),
             Packet::Subscribe(subscribe) => {
                 let suback =
                     Broker::handle_subscribe(&subscribe, &session, connection, state).await;
-                stream.write(&mut Packet::SubAck(suback)).await?;
-                Ok(())
+                Ok(Some(Packet::SubAck(suback)))
             }
             Packet::Unsubscribe(unsubscribe) => {
                 let session_id = {
@@ -370,8 +412,7 @@ impl Broker {
                     session.id().to_string()
                 };
                 let unsuback = Broker::handle_unsubscribe(&unsubscribe, &session_id, state).await;
-                stream.write(&mut Packet::UnsubAck(unsuback)).await?;
-                Ok(())
+                Ok(Some(Packet::UnsubAck(unsuback)))
             }
             Packet::Publish(publish) => {
                 let session_id = {
@@ -390,15 +431,15 @@ impl Broker {
                     Broker::send_disconnect(stream, reason).await;
                     return Err(MqttCodecError::new("PUBLISH topic refused").into());
                 }
+                let mut reply = None;
                 if publish.qos() == QoSLevel::AtLeastOnce {
                     match publish.packet_id() {
                         Some(packet_id) => {
                             let puback = vaux_mqtt::PubAck::new_puback_with_packet_id(packet_id);
-                            stream.write(&mut Packet::PubAck(puback)).await?;
+                            reply = Some(Packet::PubAck(puback));
                         }
                         None => {
-                            let disconnect = Disconnect::new(Reason::MalformedPacket);
-                            stream.write(&mut Packet::Disconnect(disconnect)).await?;
+                            Broker::send_disconnect(stream, Reason::MalformedPacket).await;
                             return Err(MqttCodecError::new(
                                 "QoS-1 PUBLISH missing packet ID",
                             ).into());
@@ -406,18 +447,18 @@ impl Broker {
                     }
                 }
                 Broker::route_publish(&publish, &session_id, state).await;
-                Ok(())
+                Ok(reply)
             }
             Packet::PubAck(puback) => {
                 let mut session = session.write().await;
                 session.acknowledge(puback.packet_id);
-                Ok(())
+                Ok(None)
             }
             Packet::Disconnect(packet) => {
                 let max_expiry = state.session_pool.read().await.session_expiry();
                 let mut session = session.write().await;
                 if !session.owned_by(connection) {
-                    return Ok(());
+                    return Ok(None);
                 }
                 if packet.reason == Reason::Success {
                     session.clear_will();
@@ -429,7 +470,7 @@ impl Broker {
                     let expiry = Duration::from_secs(expiry as u64).min(max_expiry);
                     session.set_session_expiry(Some(expiry).filter(|expiry| !expiry.is_zero()));
                 }
-                Ok(())
+                Ok(None)
             }
             Packet::Connect(_)
             | Packet::ConnAck(_)
@@ -439,7 +480,7 @@ impl Broker {
                 Broker::send_disconnect(stream, Reason::ProtocolErr).await;
                 Err(MqttCodecError::new("packet not allowed from a connected client").into())
             }
-            _ => Ok(()),
+            _ => Ok(None),
         }
     }
 
@@ -516,20 +557,20 @@ impl Broker {
                     tracing::info!("connection rejected: not accepting connections");
                     let mut ack = ConnAck::default();
                     ack.reason = Reason::ServerBusy;
-                    stream.write(&mut Packet::ConnAck(ack)).await?;
+                    Broker::write_or_give_up(stream, &mut Packet::ConnAck(ack)).await?;
                     return Err(MqttCodecError::new("connection refused: server busy").into());
                 }
                 Broker::handle_connect(*packet, stream, state).await
             }
             Packet::PingRequest(_packet) => {
                 let mut packet = PingResponse(PingResp::default());
-                stream.write(&mut packet).await?;
+                Broker::write_or_give_up(stream, &mut packet).await?;
                 Ok(None)
             }
             _ => {
                 let header = Disconnect::new(Reason::ProtocolErr);
                 let mut packet = Packet::Disconnect(header);
-                stream.write(&mut packet).await?;
+                Broker::write_or_give_up(stream, &mut packet).await?;
                 Err(MqttCodecError::new("first packet is not CONNECT").into())
             }
         }
@@ -545,7 +586,7 @@ impl Broker {
         if let Some(will) = connect.will_message() {
             if !topic::is_topic_name(&will.topic) {
                 ack.reason = Reason::InvalidTopicName;
-                stream.write(&mut Packet::ConnAck(ack)).await?;
+                Broker::write_or_give_up(stream, &mut Packet::ConnAck(ack)).await?;
                 return Err(MqttCodecError::new("connection refused: invalid will topic").into());
             }
         }
@@ -601,7 +642,7 @@ impl Broker {
             drop(session_pool);
             tracing::info!(session_id = %session_id, "connection rejected: max active sessions reached");
             ack.reason = Reason::QuotaExceeded;
-            stream.write(&mut Packet::ConnAck(ack)).await?;
+            Broker::write_or_give_up(stream, &mut Packet::ConnAck(ack)).await?;
             return Err(MqttCodecError::new("connection refused: quota exceeded").into());
         }
 
-- 
2.43.0


From dd50469d9d9b4158e9135b639e2e6cc9ad74294c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:44 +0000
Subject: [PATCH 42/79] fix: complete a QoS 2 flow whose PUBREL is received
 again after a lost PUBCOMP

---
 vaux-client/src/session.rs | 9 +++++++++
 vaux-mqtt/src/pubresp.rs   | 5 ++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index 1496773..e298d4a 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -496,6 +496,15 @@ impl ClientSession {
                     }
                     // resent by the server, the client application still has to complete it
                     Some(state) if state.next == QoSPacket::PubComp => packet_to_consumer = false,
+                    // completed before, the server did not receive the PUBCOMP
+                    None => {
+                        let mut pubcomp = PubResp::new_pubcomp_with_packet_id(packet_id);
+                        pubcomp
+                            .set_reason(Reason::PacketIdNotFound)
+                            .map_err(|e| MqttError::new(&format!("{e}"), ErrorKind::Session))?;
+                        self.send_packet(Packet::PubComp(pubcomp)).await?;
+                        packet_to_consumer = false;
+                    }
                     _ => {
                         // protocol error, unexpected packet
                         // TODO disconnect
diff --git a/vaux-mqtt/src/pubresp.rs b/vaux-mqtt/src/pubresp.rs
index e165b81..baba10e 100644
--- a/vaux-mqtt/src/pubresp.rs
+++ b/vaux-mqtt/src/pubresp.rs
@@ -115,7 +115,10 @@ impl PubResp {
                     | Reason::PayloadFormatErr
             ),
             PacketType::PubComp | PacketType::PubRel => {
-                matches!(reason, Reason::Success | Reason::PacketIdInUse)
+                matches!(
+                    reason,
+                    Reason::Success | Reason::PacketIdInUse | Reason::PacketIdNotFound
+                )
             }
             _ => false,
         }
-- 
2.43.0


From 0be56a5306f0a518ab754131b6f6d373f3df08db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:50 +0000
Subject: [PATCH 43/79] fix: respect the server's receive maximum when packets
 are sent again

---
 vaux-client/src/session.rs | 55 ++++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 14 deletions(-)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index e298d4a..2665b55 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -63,6 +63,8 @@ pub struct SessionState {
     // QoS packets the client accepts before it acknowledges the first of them
     pub(crate) qos_recv_max: usize,
     pending_qos_recv: HashMap<u16, QoSPacketState>,
+    // packets to send again once the server accepts another QoS packet
+    resend: VecDeque<u16>,
     // packets waiting until the server accepts another QoS packet
     queued: VecDeque<Publish>,
 
@@ -95,6 +97,7 @@ impl SessionState {
             pending_qos_send: HashMap::new(),
             qos_recv_max: u16::MAX as usize,
             pending_qos_recv: HashMap::new(),
+            resend: VecDeque::new(),
             queued: VecDeque::new(),
 
             max_packet_size: DEFAULT_MAX_PACKET_SIZE,
@@ -287,7 +290,8 @@ impl ClientSession {
     pub(crate) async fn write_next(&mut self, packet: Packet) -> Result<(), MqttError> {
         match packet {
             Packet::Publish(p) => {
-                if self.state.queued.is_empty() && self.can_send(&p) {
+                if self.state.resend.is_empty() && self.state.queued.is_empty() && self.can_send(&p)
+                {
                     self.send_publish(p).await
                 } else if self.state.queued.len() < MAX_QUEUED_PACKETS {
                     self.state.queued.push_back(p);
@@ -343,8 +347,19 @@ impl ClientSession {
 
     /// Returns true if the server accepts the packet now
     fn can_send(&self, publish: &Publish) -> bool {
-        publish.qos() == QoSLevel::AtMostOnce
-            || self.state.pending_qos_send.len() < self.state.qos_send_max
+        publish.qos() == QoSLevel::AtMostOnce || self.can_send_qos()
+    }
+
+    /// Returns true if the server accepts another QoS packet now
+    fn can_send_qos(&self) -> bool {
+        let in_flight = self.state.pending_qos_send.len() - self.state.resend.len();
+        in_flight < self.state.qos_send_max
+    }
+
+    /// Forgets a packet the server has completed
+    fn complete_send(&mut self, packet_id: u16) {
+        self.state.pending_qos_send.remove(&packet_id);
+        self.state.resend.retain(|id| *id != packet_id);
     }
 
     async fn send_publish(&mut self, mut p: Publish) -> Result<(), MqttError> {
@@ -395,8 +410,10 @@ impl ClientSession {
     }
 
     /// Resumes the packets of the session that were not completed on a previous connection:
-    /// resends them in order if the server still has the session, else forgets them.
+    /// resends them in order, as the server accepts them, if it still has the session, else
+    /// forgets them.
     async fn resume_pending(&mut self, session_present: bool) -> Result<(), MqttError> {
+        self.state.resend.clear();
         if !session_present {
             self.state.pending_qos_send.clear();
             self.state.pending_qos_recv.clear();
@@ -407,12 +424,8 @@ impl ClientSession {
         let mut packets = Vec::new();
         for (packet_id, state) in pending {
             match (&state.packet, state.next) {
-                (Some(publish), QoSPacket::PubAck | QoSPacket::PubRec) => {
-                    let mut publish = publish.clone();
-                    publish.set_dup(true).map_err(|e| {
-                        MqttError::new(&format!("{e}"), ErrorKind::Session)
-                    })?;
-                    packets.push(Packet::Publish(publish));
+                (Some(_), QoSPacket::PubAck | QoSPacket::PubRec) => {
+                    self.state.resend.push_back(*packet_id);
                 }
                 (_, QoSPacket::PubComp) => packets.push(Packet::PubRel(
                     PubResp::new_pubrel_with_packet_id(*packet_id),
@@ -426,8 +439,22 @@ impl ClientSession {
         self.send_queued().await
     }
 
-    /// Sends queued packets in order until the server accepts no more of them
+    /// Sends packets to send again and then queued packets in order until the server accepts no
+    /// more of them
     async fn send_queued(&mut self) -> Result<(), MqttError> {
+        while let Some(packet_id) = self.state.resend.front().copied() {
+            if !self.can_send_qos() {
+                return Ok(());
+            }
+            self.state.resend.pop_front();
+            let pending = self.state.pending_qos_send.get(&packet_id);
+            if let Some(mut publish) = pending.and_then(|p| p.packet.clone()) {
+                publish
+                    .set_dup(true)
+                    .map_err(|e| MqttError::new(&format!("{e}"), ErrorKind::Session))?;
+                self.send_packet(Packet::Publish(publish)).await?;
+            }
+        }
         while let Some(publish) = self.state.queued.pop_front() {
             if !self.can_send(&publish) {
                 self.state.queued.push_front(publish);
@@ -460,7 +487,7 @@ impl ClientSession {
             }
             Packet::PubAck(puback) => {
                 self.expect_send(puback.packet_id, QoSPacket::PubAck)?;
-                self.state.pending_qos_send.remove(&puback.packet_id);
+                self.complete_send(puback.packet_id);
                 self.send_queued().await?;
             }
             Packet::PubRec(pubrec) => {
@@ -469,7 +496,7 @@ impl ClientSession {
                 let state = self.expect_send(packet_id, QoSPacket::PubRec)?;
                 if pubrec.reason().unwrap_or_default() as u8 >= Reason::UnspecifiedErr as u8 {
                     // refused by the server, there is nothing to release
-                    self.state.pending_qos_send.remove(&packet_id);
+                    self.complete_send(packet_id);
                     self.send_queued().await?;
                 } else {
                     // the packet itself is not needed any more
@@ -517,7 +544,7 @@ impl ClientSession {
             }
             Packet::PubComp(pubcomp) => {
                 self.expect_send(pubcomp.packet_id, QoSPacket::PubComp)?;
-                self.state.pending_qos_send.remove(&pubcomp.packet_id);
+                self.complete_send(pubcomp.packet_id);
                 self.send_queued().await?;
             }
             _ => {}
-- 
2.43.0


From dc750f5560c8d3e64ad7039245ffd29db781c140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:40 +0000
Subject: [PATCH 44/79] fix: do not use the packet id of an unacknowledged
 SUBSCRIBE or UNSUBSCRIBE for a PUBLISH

---
 vaux-client/src/session.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index 2665b55..fc515f7 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -1,7 +1,7 @@
 use crate::{ErrorKind, MqttClient, MqttError};
 use std::mem;
 use std::{
-    collections::{HashMap, VecDeque},
+    collections::{HashMap, HashSet, VecDeque},
     sync::Arc,
     time::Duration,
 };
@@ -9,8 +9,9 @@ use tokio::sync::{Mutex, RwLock};
 use vaux_mqtt::WillMessage;
 use vaux_mqtt::publish::Publish;
 use vaux_mqtt::pubresp::PubResp;
+use vaux_mqtt::unsubscribe::Unsubscribe;
 use vaux_mqtt::{
-    ConnAck, Connect, Packet, QoSLevel, Reason,
+    ConnAck, Connect, Packet, QoSLevel, Reason, Subscribe,
     codec::{CodecSize, Encode},
 };
 
@@ -115,6 +116,8 @@ pub(crate) struct ClientSession {
     connected: Arc<RwLock<bool>>,
     packet_stream: vaux_async::stream::PacketStream,
     last_active: tokio::time::Instant,
+    // packet IDs of SUBSCRIBE and UNSUBSCRIBE packets that are not acknowledged
+    subscribing: HashSet<u16>,
     state: SessionState,
     usable: bool,
 }
@@ -141,6 +144,7 @@ impl ClientSession {
                 Some(state.max_packet_size),
             ),
             last_active: tokio::time::Instant::now(),
+            subscribing: HashSet::new(),
             state,
             usable: true,
         })
@@ -341,13 +345,20 @@ impl ClientSession {
                 *self.connected.write().await = false;
                 Ok(())
             }
+            Packet::Subscribe(Subscribe { packet_id, .. })
+            | Packet::Unsubscribe(Unsubscribe { packet_id, .. }) => {
+                self.send_packet(packet).await?;
+                self.subscribing.insert(packet_id);
+                Ok(())
+            }
             _ => self.send_packet(packet).await,
         }
     }
 
     /// Returns true if the server accepts the packet now
     fn can_send(&self, publish: &Publish) -> bool {
-        publish.qos() == QoSLevel::AtMostOnce || self.can_send_qos()
+        let used = self.state.pending_qos_send.len() + self.subscribing.len();
+        publish.qos() == QoSLevel::AtMostOnce || self.can_send_qos() && used < u16::MAX as usize
     }
 
     /// Returns true if the server accepts another QoS packet now
@@ -382,6 +393,7 @@ impl ClientSession {
                         .state
                         .pending_qos_send
                         .contains_key(&self.state.last_packet_id)
+                    || self.subscribing.contains(&self.state.last_packet_id)
                 {
                     self.state.last_packet_id = self.state.last_packet_id.wrapping_add(1);
                 }
@@ -547,6 +559,14 @@ impl ClientSession {
                 self.complete_send(pubcomp.packet_id);
                 self.send_queued().await?;
             }
+            Packet::SubAck(suback) => {
+                self.subscribing.remove(&suback.packet_id());
+                self.send_queued().await?;
+            }
+            Packet::UnsubAck(unsuback) => {
+                self.subscribing.remove(&unsuback.packet_id);
+                self.send_queued().await?;
+            }
             _ => {}
         }
         if packet_to_consumer {
-- 
2.43.0


From 25f15f865f125b327f6f3a281a0ad70cdb2f6475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:41 +0000
Subject: [PATCH 45/79] fix: keep an acknowledged packet the application had no
 room for when the client ends

---
 vaux-client/src/client.rs  | 27 ++++++++++++++-------------
 vaux-client/src/session.rs | 12 +++++++++++-
 2 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/vaux-client/src/client.rs b/vaux-client/src/client.rs
index 8c3be8d..48d683a 100644
--- a/vaux-client/src/client.rs
+++ b/vaux-client/src/client.rs
@@ -341,7 +341,7 @@ impl MqttClient {
                 Ok(_) => *connected.write().await = true,
                 Err(e) => {
                     *connected.write().await = false;
-                    return Err(ClientError::new(e, session.end_session().await));
+                    return Err(ClientError::new(e, session.end_session(None).await));
                 }
             }
             let keep_alive = session.keep_alive().await;
@@ -360,8 +360,9 @@ impl MqttClient {
             // has no room for; keep-alive and outbound app commands keep flowing.
             // This avoids the consumer's channel back-pressure deadlocking the
             // whole client (no further reads => no further PubAcks => the broker
-            // eventually drops the connection for missed keep-alives).
-            let mut pending_forward: Option<Packet> = None;
+            // eventually drops the connection for missed keep-alives). If the client
+            // ends first, the packet is delivered when it is started again.
+            let mut pending_forward = session.take_undelivered();
             loop {
                 select! {
                     _ = MqttClient::keep_alive_timer(session.last_active(), keep_alive), if keep_alive_enabled && !keep_alive.is_zero() => {
@@ -371,7 +372,7 @@ impl MqttClient {
                             }
                             Err(e) => {
                                 *connected.write().await = false;
-                                return Err(ClientError::new(e, session.end_session().await));
+                                return Err(ClientError::new(e, session.end_session(pending_forward).await));
                             }
                         }
                     }
@@ -384,7 +385,7 @@ impl MqttClient {
                                 *connected.write().await = false;
                                 return Err(ClientError::new(
                                     MqttError::new(&format!("unable to send packet: {e}"), ErrorKind::Channel),
-                                    session.end_session().await));
+                                    session.end_session(pending_forward).await));
                             }
                             None => {
                                 // guard was true when checked but pending_forward was
@@ -409,11 +410,11 @@ impl MqttClient {
                                                 // consumer is behind; pause reads until it catches up
                                                 pending_forward = Some(packet);
                                             }
-                                            Err(TrySendError::Closed(_)) => {
+                                            Err(TrySendError::Closed(packet)) => {
                                                 *connected.write().await = false;
                                                 return Err(ClientError::new(
                                                     MqttError::new("unable to send packet: channel closed", ErrorKind::Channel),
-                                                    session.end_session().await));
+                                                    session.end_session(Some(packet)).await));
                                             }
                                         }
                                     }
@@ -422,18 +423,18 @@ impl MqttClient {
                                     }
                                     Err(e) => {
                                         *connected.write().await = false;
-                                        return Err(ClientError::new(e, session.end_session().await));
+                                        return Err(ClientError::new(e, session.end_session(pending_forward).await));
                                     }
                                 }
                             }
                             Ok(None) => {
                                 // socket closed
                                 *connected.write().await = false;
-                                return Err(ClientError::new(MqttError::new("socket closed", ErrorKind::Transport), session.end_session().await));
+                                return Err(ClientError::new(MqttError::new("socket closed", ErrorKind::Transport), session.end_session(pending_forward).await));
                             }
                             Err(e) => {
                                 *connected.write().await = false;
-                                return Err(ClientError::new(e, session.end_session().await));
+                                return Err(ClientError::new(e, session.end_session(pending_forward).await));
                             }
                         }
                     }
@@ -449,20 +450,20 @@ impl MqttClient {
                                     }
                                     Err(e) => {
                                         *connected.write().await = false;
-                                        return Err(ClientError::new(e, session.end_session().await));
+                                        return Err(ClientError::new(e, session.end_session(pending_forward).await));
                                     }
                                 }
                             }
                             None => {
                                 *connected.write().await = false;
-                                return Err(ClientError::new(MqttError::new("packet_in channel closed", ErrorKind::Transport), session.end_session().await));
+                                return Err(ClientError::new(MqttError::new("packet_in channel closed", ErrorKind::Transport), session.end_session(pending_forward).await));
                             }
                         }
                     }
                 };
                 if !session.connected().await {
                     *connected.write().await = false;
-                    return Ok(session.end_session().await);
+                    return Ok(session.end_session(pending_forward).await);
                 }
             }
         }))
diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index fc515f7..0cb7443 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -68,6 +68,8 @@ pub struct SessionState {
     resend: VecDeque<u16>,
     // packets waiting until the server accepts another QoS packet
     queued: VecDeque<Publish>,
+    // a received packet the client application had no room for
+    pub(crate) undelivered: Option<Packet>,
 
     pub(crate) max_packet_size: usize,
     pub(crate) auto_packet_id: bool,
@@ -100,6 +102,7 @@ impl SessionState {
             pending_qos_recv: HashMap::new(),
             resend: VecDeque::new(),
             queued: VecDeque::new(),
+            undelivered: None,
 
             max_packet_size: DEFAULT_MAX_PACKET_SIZE,
             auto_packet_id: true,
@@ -150,9 +153,16 @@ impl ClientSession {
         })
     }
 
-    pub(crate) async fn end_session(&mut self) -> SessionState {
+    /// Takes the packet that could not be delivered before the last session ended
+    pub(crate) fn take_undelivered(&mut self) -> Option<Packet> {
+        self.state.undelivered.take()
+    }
+
+    /// Ends the session, a packet that was not delivered is kept for the next one
+    pub(crate) async fn end_session(&mut self, undelivered: Option<Packet>) -> SessionState {
         // poison the session so that it cannot be used after the state is taken
         self.usable = false;
+        self.state.undelivered = undelivered.or(self.state.undelivered.take());
         let mut session_state = SessionState::new();
         mem::swap(&mut self.state, &mut session_state);
         session_state
-- 
2.43.0


From 5616a259b581ff8d38e1530c46e45a148eff63c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:42 +0000
Subject: [PATCH 46/79] fix: do not take over the server's keep alive and
 session expiry into the state for the next session

---
 vaux-client/src/session.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index 0cb7443..0cd72dd 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -121,6 +121,8 @@ pub(crate) struct ClientSession {
     last_active: tokio::time::Instant,
     // packet IDs of SUBSCRIBE and UNSUBSCRIBE packets that are not acknowledged
     subscribing: HashSet<u16>,
+    // keep alive and session expiry to ask the server for
+    requested: (Duration, Duration),
     state: SessionState,
     usable: bool,
 }
@@ -139,6 +141,7 @@ impl ClientSession {
             .take()
             .ok_or_else(SessionState::default)
             .unwrap();
+        let requested = (*state.keep_alive.read().await, *state.session_expiry.read().await);
         Ok(Self {
             connected: Arc::new(RwLock::new(false)),
             packet_stream: vaux_async::stream::PacketStream::new(
@@ -148,6 +151,7 @@ impl ClientSession {
             ),
             last_active: tokio::time::Instant::now(),
             subscribing: HashSet::new(),
+            requested,
             state,
             usable: true,
         })
@@ -163,6 +167,9 @@ impl ClientSession {
         // poison the session so that it cannot be used after the state is taken
         self.usable = false;
         self.state.undelivered = undelivered.or(self.state.undelivered.take());
+        // what the server decided holds for its connection only
+        self.state.keep_alive = Arc::new(RwLock::new(self.requested.0));
+        self.state.session_expiry = Arc::new(RwLock::new(self.requested.1));
         let mut session_state = SessionState::new();
         mem::swap(&mut self.state, &mut session_state);
         session_state
-- 
2.43.0


From 6255e0d0795d1c4b00a5c9e46d32b9ed3ed5d2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:42 +0000
Subject: [PATCH 47/79] fix: report a CONNECT that cannot be encoded instead of
 panicking

---
 vaux-client/src/session.rs | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index 0cd72dd..660f802 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -10,10 +10,7 @@ use vaux_mqtt::WillMessage;
 use vaux_mqtt::publish::Publish;
 use vaux_mqtt::pubresp::PubResp;
 use vaux_mqtt::unsubscribe::Unsubscribe;
-use vaux_mqtt::{
-    ConnAck, Connect, Packet, QoSLevel, Reason, Subscribe,
-    codec::{CodecSize, Encode},
-};
+use vaux_mqtt::{ConnAck, Connect, Packet, QoSLevel, Reason, Subscribe};
 
 const DEFAULT_MAX_PACKET_SIZE: usize = 64 * 1024;
 const DEFAULT_CLIENT_ID_PREFIX: &str = "vaux-client";
@@ -236,11 +233,6 @@ impl ClientSession {
             connect.set_will_message(will);
         }
         let mut connect_packet = Packet::Connect(Box::new(connect));
-        if let Packet::Connect(ref mut boxed_connect) = connect_packet {
-            let mut dest = bytes::BytesMut::with_capacity(boxed_connect.codec_size() as usize);
-            boxed_connect.encode(&mut dest).unwrap();
-        }
-
         match self.packet_stream.write(&mut connect_packet).await {
             Ok(_) => {
                 let start = tokio::time::Instant::now();
-- 
2.43.0


From dbd557dabe7cf886bb05bc0fe8773bedea04cd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:43 +0000
Subject: [PATCH 48/79] fix: do not panic when a client is built with channel
 size 0

---
 vaux-client/src/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vaux-client/src/builder.rs b/vaux-client/src/builder.rs
index 63b0487..a9e054e 100644
--- a/vaux-client/src/builder.rs
+++ b/vaux-client/src/builder.rs
@@ -164,7 +164,7 @@ impl ClientBuilder {
     }
 
     pub fn with_channel_size(mut self, channel_size: u16) -> Self {
-        self.channel_size = Some(channel_size);
+        self.channel_size = Some(channel_size.max(1));
         self
     }
 
-- 
2.43.0


From 16d27a8b37f6c2b9ef1d4aa09a485504376fee54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:30 +0000
Subject: [PATCH 49/79] fix: do not let a client connect after try_start
 reported that it could not

---
 vaux-client/src/client.rs | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/vaux-client/src/client.rs b/vaux-client/src/client.rs
index 48d683a..f2a87c5 100644
--- a/vaux-client/src/client.rs
+++ b/vaux-client/src/client.rs
@@ -243,8 +243,17 @@ impl MqttClient {
         max_wait: Duration,
         clean_start: bool,
     ) -> crate::Result<JoinHandle<Result<SessionState, ClientError>>> {
-        let handle = self.start(clean_start).await;
-        match tokio::time::timeout(max_wait, {
+        let start = tokio::time::Instant::now();
+        let handle = match tokio::time::timeout(max_wait, self.start(clean_start)).await {
+            Ok(handle) => handle?,
+            Err(start_err) => {
+                return Err(MqttError::new(
+                    &format!("unable to connect to broker: {start_err}"),
+                    ErrorKind::Transport,
+                ));
+            }
+        };
+        match tokio::time::timeout(max_wait.saturating_sub(start.elapsed()), {
             async {
                 while !self.connected().await {
                     tokio::time::sleep(std::time::Duration::from_millis(100)).await;
@@ -253,21 +262,21 @@ impl MqttClient {
         })
         .await
         {
-            Ok(_) => 
-            {
-                handle
-            }
+            Ok(_) => Ok(handle),
             Err(start_err) => {
                 // if the client is connected then stop the client
-                if self.connected().await
-                    && let Err(stop_err) = self.stop().await
-                {
-                    return Err(MqttError::new(
-                        &format!(
-                            "error starting: {start_err} unable to stop client: {stop_err} "
-                        ),
-                        ErrorKind::Transport,
-                    ));
+                if self.connected().await {
+                    if let Err(stop_err) = self.stop().await {
+                        return Err(MqttError::new(
+                            &format!(
+                                "error starting: {start_err} unable to stop client: {stop_err} "
+                            ),
+                            ErrorKind::Transport,
+                        ));
+                    }
+                } else {
+                    // the client must not connect after the error is returned
+                    handle.abort();
                 }
                 Err(MqttError::new(
                     &format!("unable to connect to broker: {start_err}"),
-- 
2.43.0


From 8ca86df15396d8df5fa29ae4dec9f8b4b907e2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:38 +0000
Subject: [PATCH 50/79] fix: do not truncate a session expiry above the
 protocol maximum

---
 vaux-client/src/session.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index 660f802..249dfff 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -220,8 +220,9 @@ impl ClientSession {
                 connect.client_id = set_id.as_ref().unwrap().clone();
             }
         }
-        connect
-            .set_session_expiry_interval(self.state.session_expiry.read().await.as_secs() as u32);
+        connect.set_session_expiry_interval(
+            self.state.session_expiry.read().await.as_secs().min(u32::MAX as u64) as u32,
+        );
         if self.state.qos_recv_max < u16::MAX as usize {
             connect.receive_maximum = Some(self.state.qos_recv_max as u16);
         }
-- 
2.43.0


From 3f43b99674bc5bb2ec1b9a605dcaadd6f936f2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:39 +0000
Subject: [PATCH 51/79] fix: ping within the keep alive announced to the server

---
 vaux-client/src/session.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index 249dfff..929bca4 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -620,10 +620,13 @@ impl ClientSession {
                 }
             }
         }
-        // set session keep alive from the server
-        if let Some(server_keep_alive) = connack.server_keep_alive {
+        // set session keep alive from the server, otherwise the one announced to it, which has
+        // whole seconds and a maximum, holds
+        {
             let mut keep_alive = self.state.keep_alive.write().await;
-            *keep_alive = Duration::from_secs(u64::from(server_keep_alive));
+            let announced = keep_alive.as_secs().min(u16::MAX as u64) as u16;
+            *keep_alive =
+                Duration::from_secs(connack.server_keep_alive.unwrap_or(announced).into());
         }
         // set the server assigned session expiry if present
         if let Some(server_session_expiry) = connack.session_expiry_interval {
-- 
2.43.0


From b2f65e9761640e61aa7db640ef11a844b634881a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:52 +0000
Subject: [PATCH 52/79] fix: announce the maximum packet size of the client to
 the server

---
 vaux-client/src/session.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index 929bca4..1f2f358 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -226,6 +226,9 @@ impl ClientSession {
         if self.state.qos_recv_max < u16::MAX as usize {
             connect.receive_maximum = Some(self.state.qos_recv_max as u16);
         }
+        // a larger packet ends the connection
+        connect.max_packet_size =
+            Some(self.state.max_packet_size.clamp(1, u32::MAX as usize) as u32);
         if let Some((username, password)) = credentials {
             connect.set_username(Some(username));
             connect.set_password(Some(password.into_bytes()));
-- 
2.43.0


From b8ec986f8cec290ddf403de35407109b534746c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:01 +0000
Subject: [PATCH 53/79] fix: do not wait for the TLS handshake of a connection
 forever

---
 vaux-client/src/connection.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vaux-client/src/connection.rs b/vaux-client/src/connection.rs
index c88341c..f9092b9 100644
--- a/vaux-client/src/connection.rs
+++ b/vaux-client/src/connection.rs
@@ -115,11 +115,16 @@ impl MqttConnection {
         }
         let socket_addr = socket_addr.unwrap().next().unwrap();
 
+        let start = tokio::time::Instant::now();
         match tokio::time::timeout(timeout, TcpStream::connect(&socket_addr)).await {
             Ok(result) => match result {
                 Ok(stream) => {
                     if self.tls {
-                        self.stream = Some(self.connect_tls(stream).await?);
+                        let remaining = timeout.saturating_sub(start.elapsed());
+                        let stream = tokio::time::timeout(remaining, self.connect_tls(stream))
+                            .await
+                            .map_err(|_e| MqttError::new("timeout", ErrorKind::Timeout))??;
+                        self.stream = Some(stream);
                         Ok(())
                     } else {
                         self.stream = Some(AsyncMqttStream(MqttStream::TcpStream(stream)));
-- 
2.43.0


From 6d22ae0bf580412d3b69756a1f7a0b75b8b3e134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:42 +0000
Subject: [PATCH 54/79] fix: the delayed will of a session that a clean start
 ends is published

---
 vaux-broker/src/lib.rs     | 15 ++++++++++-----
 vaux-broker/src/session.rs | 26 ++++++++++++++++++++------
 2 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 7978629..baf1392 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -4,6 +4,7 @@ pub(crate) mod topic;
 
 pub use config::Config;
 use config::{BROKER_KEEP_ALIVE_FACTOR, DEFAULT_KEEP_ALIVE};
+use session::PendingWill;
 use session::Session;
 use session::SessionConnection;
 use session::SessionControl;
@@ -14,7 +15,7 @@ use std::time::Duration;
 use tokio::{
     net::TcpListener,
     select,
-    sync::{mpsc::Receiver, mpsc::Sender, watch, RwLock},
+    sync::{mpsc::Receiver, mpsc::Sender, oneshot, watch, RwLock},
     task::JoinHandle,
     time::Instant,
 };
@@ -658,6 +659,7 @@ impl Broker {
                     let mut existing_session = existing_session.write().await;
                     // the session ends here, its will message is due whatever its delay
                     taken_over_will = existing_session.take_will();
+                    existing_session.publish_pending_will();
                     existing_session.take_over();
                 }
                 // its subscriptions end with it
@@ -741,7 +743,7 @@ impl Broker {
         connection: u64,
         state: &BrokerState,
     ) {
-        let token = tokio_util::sync::CancellationToken::new();
+        let (pending, decided) = oneshot::channel();
         let (will, session_expiry) = {
             let mut session = session.write().await;
             if !session.owned_by(connection) {
@@ -749,7 +751,7 @@ impl Broker {
             }
             let will = session.take_will();
             if will.is_some() {
-                session.set_pending_will(token.clone());
+                session.set_pending_will(pending);
             }
             (will, session.session_expiry().unwrap_or_default())
         };
@@ -762,14 +764,17 @@ impl Broker {
             if delay.is_zero() {
                 Broker::publish_will(&will, state).await;
             } else {
-                let child_token = token.child_token();
                 let state = state.clone();
                 tokio::spawn(async move {
                     tokio::select! {
                         _ = tokio::time::sleep(delay) => {
                             Broker::publish_will(&will, &state).await;
                         }
-                        _ = child_token.cancelled() => {}
+                        Ok(decision) = decided => {
+                            if matches!(decision, PendingWill::Publish) {
+                                Broker::publish_will(&will, &state).await;
+                            }
+                        }
                     }
                 });
             }
diff --git a/vaux-broker/src/session.rs b/vaux-broker/src/session.rs
index 33508ce..5524014 100644
--- a/vaux-broker/src/session.rs
+++ b/vaux-broker/src/session.rs
@@ -2,10 +2,10 @@ use std::{collections::HashMap, sync::Arc, time::Duration};
 use tokio::sync::{
     RwLock,
     mpsc::{self, Receiver, Sender},
+    oneshot,
     watch,
 };
 use tokio::time::Instant;
-use tokio_util::sync::CancellationToken;
 use vaux_mqtt::{Publish, Reason, WillMessage};
 
 #[derive(Debug, Default)]
@@ -197,6 +197,13 @@ pub(crate) struct SessionConnection {
     pub close: watch::Receiver<Option<Reason>>,
 }
 
+/// What becomes of a will message before its delay has passed
+#[derive(Debug)]
+pub(crate) enum PendingWill {
+    Cancel,
+    Publish,
+}
+
 #[derive(Debug)]
 pub struct Session {
     id: String,
@@ -205,7 +212,7 @@ pub struct Session {
     keep_alive: Duration,
     pub session_expiry: Option<Duration>,
     will_message: Option<WillMessage>,
-    pending_will: Option<CancellationToken>,
+    pending_will: Option<oneshot::Sender<PendingWill>>,
     next_packet_id: u16,
     pending_ack: HashMap<u16, (u64, Publish)>,
     track_sequence: u64,
@@ -295,14 +302,21 @@ impl Session {
         self.will_message.take()
     }
 
-    pub fn set_pending_will(&mut self, token: CancellationToken) {
+    pub(crate) fn set_pending_will(&mut self, pending: oneshot::Sender<PendingWill>) {
         self.cancel_pending_will();
-        self.pending_will = Some(token);
+        self.pending_will = Some(pending);
     }
 
     pub fn cancel_pending_will(&mut self) {
-        if let Some(token) = self.pending_will.take() {
-            token.cancel();
+        if let Some(pending) = self.pending_will.take() {
+            let _ = pending.send(PendingWill::Cancel);
+        }
+    }
+
+    /// Has the will message that waits for its delay published, as the session ends before
+    pub(crate) fn publish_pending_will(&mut self) {
+        if let Some(pending) = self.pending_will.take() {
+            let _ = pending.send(PendingWill::Publish);
         }
     }
 
-- 
2.43.0


From e2a98e405a53865fc5e7156a5c4070ffc1d6b294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:22 +0000
Subject: [PATCH 55/79] fix: topics of many levels do not overflow the stack of
 the broker

---
 vaux-broker/src/topic.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/vaux-broker/src/topic.rs b/vaux-broker/src/topic.rs
index b584bc7..a80b0ce 100644
--- a/vaux-broker/src/topic.rs
+++ b/vaux-broker/src/topic.rs
@@ -117,15 +117,21 @@ impl TopicTree {
     pub fn matching_subscribers(&self, topic: &str) -> Vec<Subscriber> {
         let segments: Vec<&str> = topic.split('/').collect();
         let mut results = Vec::new();
-        self.collect_matches(ROOT_NODE, &segments, 0, &mut results);
+        // a topic can have too many levels for recursion
+        let mut pending = vec![(ROOT_NODE, 0)];
+        while let Some((node_idx, depth)) = pending.pop() {
+            self.collect_matches(node_idx, &segments, depth, &mut pending, &mut results);
+        }
         results
     }
 
+    /// Collects the subscribers that match at a node, and the nodes to go on with
     fn collect_matches(
         &self,
         node_idx: u32,
         segments: &[&str],
         depth: usize,
+        pending: &mut Vec<(u32, usize)>,
         results: &mut Vec<Subscriber>,
     ) {
         let node = &self.nodes[node_idx as usize];
@@ -148,14 +154,14 @@ impl TopicTree {
         // MQTTv5 4.7.2 a leading wildcard does not match topics beginning with '$'
         let wildcards_match = depth > 0 || !segment.starts_with('$');
 
-        // exact match on this segment
-        if let Some(&child_idx) = node.children.get(segment) {
-            self.collect_matches(child_idx, segments, depth + 1, results);
-        }
-
         // '+' wildcard matches any single level
         if let Some(&plus_idx) = node.children.get("+").filter(|_| wildcards_match) {
-            self.collect_matches(plus_idx, segments, depth + 1, results);
+            pending.push((plus_idx, depth + 1));
+        }
+
+        // exact match on this segment
+        if let Some(&child_idx) = node.children.get(segment) {
+            pending.push((child_idx, depth + 1));
         }
 
         // '#' child matches this level and everything below
-- 
2.43.0


From 661f8e89783e6e2f9c662abe3e4f584b07c6c16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:22 +0000
Subject: [PATCH 56/79] fix: a session expiry or keep alive limited to zero is
 announced in CONNACK

---
 vaux-broker/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index baf1392..9458501 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -603,7 +603,7 @@ impl Broker {
             ack.set_server_keep_alive(default_keep_alive_secs);
             Duration::from_secs(default_keep_alive_secs as u64).mul_f32(BROKER_KEEP_ALIVE_FACTOR)
         } else if connect.keep_alive > max_keep_alive_secs {
-            ack.set_server_keep_alive(max_keep_alive_secs);
+            ack.server_keep_alive = Some(max_keep_alive_secs);
             Duration::from_secs(max_keep_alive_secs as u64).mul_f32(BROKER_KEEP_ALIVE_FACTOR)
         } else {
             Duration::from_secs(connect.keep_alive as u64).mul_f32(BROKER_KEEP_ALIVE_FACTOR)
@@ -616,7 +616,8 @@ impl Broker {
                     max_expiry = state.session_pool.read().await.session_expiry().as_secs() as u32;
                 }
                 if requested_expiry > max_expiry {
-                    ack.set_session_expiry(max_expiry);
+                    // zero is announced as well
+                    ack.session_expiry_interval = Some(max_expiry);
                     Some(Duration::from_secs(max_expiry as u64))
                 } else {
                     Some(Duration::from_secs(requested_expiry as u64))
-- 
2.43.0


From 08e7130f4bc6a3ccd94e18ad78ce698e0b95df1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:22 +0000
Subject: [PATCH 57/79] fix: configured limits that do not fit the packets are
 the largest that do

---
 vaux-broker/src/lib.rs     | 3 ++-
 vaux-broker/src/session.rs | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 9458501..a22ee08 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -613,7 +613,8 @@ impl Broker {
             if requested_expiry > 0 {
                 let max_expiry: u32;
                 {
-                    max_expiry = state.session_pool.read().await.session_expiry().as_secs() as u32;
+                    let configured = state.session_pool.read().await.session_expiry().as_secs();
+                    max_expiry = configured.min(u32::MAX as u64) as u32;
                 }
                 if requested_expiry > max_expiry {
                     // zero is announced as well
diff --git a/vaux-broker/src/session.rs b/vaux-broker/src/session.rs
index 5524014..deb4b10 100644
--- a/vaux-broker/src/session.rs
+++ b/vaux-broker/src/session.rs
@@ -37,11 +37,11 @@ impl SessionPool {
     }
 
     pub fn default_keep_alive_secs(&self) -> u16 {
-        self.default_keep_alive.as_secs() as u16
+        self.default_keep_alive.as_secs().min(u16::MAX as u64) as u16
     }
 
     pub fn max_keep_alive_secs(&self) -> u16 {
-        self.max_keep_alive.as_secs() as u16
+        self.max_keep_alive.as_secs().min(u16::MAX as u64) as u16
     }
 
     pub fn session_expiry(&self) -> Duration {
-- 
2.43.0


From aec972b2e60cc0ea9cd8edeaed110698d435eaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:13 +0000
Subject: [PATCH 58/79] fix: a TLS handshake that does not complete is given up

---
 vaux-broker/src/lib.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index a22ee08..592a43c 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -188,14 +188,21 @@ impl Broker {
                                         let tls = client_state.config.tls_acceptor.clone();
                                         tokio::spawn(async move {
                                             let mqtt_stream = if let Some(acceptor) = tls {
-                                                match acceptor.accept(socket).await {
-                                                    Ok(tls_stream) => {
+                                                match tokio::time::timeout(
+                                                    DEFAULT_KEEP_ALIVE,
+                                                    acceptor.accept(socket),
+                                                ).await {
+                                                    Ok(Ok(tls_stream)) => {
                                                         MqttStream::ServerTlsStream(Box::new(tls_stream))
                                                     }
-                                                    Err(e) => {
+                                                    Ok(Err(e)) => {
                                                         tracing::warn!(error = %e, "TLS handshake failed");
                                                         return Ok(());
                                                     }
+                                                    Err(_) => {
+                                                        tracing::warn!("TLS handshake timed out");
+                                                        return Ok(());
+                                                    }
                                                 }
                                             } else {
                                                 MqttStream::TcpStream(socket)
-- 
2.43.0


From 74efeff308eeb86aff60d5ced64dc6b78472d3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:46 +0000
Subject: [PATCH 59/79] fix: no message overtakes one a slow subscriber had no
 room for

---
 vaux-broker/src/session.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vaux-broker/src/session.rs b/vaux-broker/src/session.rs
index deb4b10..071e4ee 100644
--- a/vaux-broker/src/session.rs
+++ b/vaux-broker/src/session.rs
@@ -284,6 +284,10 @@ impl Session {
         &self,
         msg: SessionControl,
     ) -> Result<(), tokio::sync::mpsc::error::TrySendError<SessionControl>> {
+        // nothing overtakes a message the connection had no room for
+        if self.close.borrow().is_some() {
+            return Err(tokio::sync::mpsc::error::TrySendError::Closed(msg));
+        }
         self.control.try_send(msg)
     }
 
-- 
2.43.0


From 29692be959451819327782003a03af5e102367ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:56 +0000
Subject: [PATCH 60/79] fix: a packet that has a property more than once is
 malformed

---
 vaux-macro/src/decode.rs   |  2 ++
 vaux-mqtt/src/codec/mod.rs | 18 +++++++++++++++++-
 vaux-mqtt/src/connect.rs   |  2 ++
 vaux-mqtt/src/publish.rs   |  5 +++++
 4 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/vaux-macro/src/decode.rs b/vaux-macro/src/decode.rs
index ff49a2a..36dbfc6 100644
--- a/vaux-macro/src/decode.rs
+++ b/vaux-macro/src/decode.rs
@@ -82,8 +82,10 @@ pub(crate) fn decode_internal(input: TokenStream) -> TokenStream {
             let property_length = property_length as usize;
             bytes_read += var_bytes_read;
             let mut property_bytes_read = 0_usize;
+            let mut properties_read = 0_u64;
             while property_bytes_read < property_length {
                 let property_type = src.try_get_u8()?.try_into()?;
+                codec::check_single_property(&mut properties_read, property_type)?;
                 property_bytes_read += 1;
                 match property_type {
                     #(#property_field_decode)*
diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index 6516d79..878b9d4 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -1,7 +1,7 @@
 pub mod fixed;
 pub use fixed::FixedHeader;
 use crate::{
-    ConnAck, Disconnect, Subscribe, connect::Connect, publish::Publish, pubresp::{PubAck, PubComp, PubRec, PubRel}, subscribe::SubAck, unsubscribe::{UnsubAck, Unsubscribe}
+    ConnAck, Disconnect, PropertyType, Subscribe, connect::Connect, publish::Publish, pubresp::{PubAck, PubComp, PubRec, PubRel}, subscribe::SubAck, unsubscribe::{UnsubAck, Unsubscribe}
 };
 use bytes::{Buf, BufMut, Bytes, BytesMut};
 use std::fmt::{Display, Formatter};
@@ -718,6 +718,22 @@ pub fn codec_size_opt_variable_byte_int_ref(src: &Option<u32>) -> u32 {
     }
 }
 
+/// Notes that a property of a packet was read. Apart from the user property no property may be
+/// present more than once.
+pub fn check_single_property(
+    seen: &mut u64,
+    property_type: PropertyType,
+) -> Result<(), MqttCodecError> {
+    let bit = 1_u64 << property_type as u8;
+    if *seen & bit != 0 && property_type != PropertyType::UserProperty {
+        return Err(MqttCodecError::new(&format!(
+            "malformed packet: property {property_type} is present more than once",
+        )));
+    }
+    *seen |= bit;
+    Ok(())
+}
+
 pub fn decode_opt_variable_byte_int(
     src: &mut BytesMut,
 ) -> Result<(Option<u32>, usize), MqttCodecError> {
diff --git a/vaux-mqtt/src/connect.rs b/vaux-mqtt/src/connect.rs
index c211ee5..27a0f8b 100644
--- a/vaux-mqtt/src/connect.rs
+++ b/vaux-mqtt/src/connect.rs
@@ -218,8 +218,10 @@ impl codec::Decode for Connect {
         let property_length = property_length as usize;
         bytes_read += var_bytes_read;
         let mut property_bytes_read = 0_usize;
+        let mut properties_read = 0_u64;
         while property_bytes_read < property_length {
             let property_type: PropertyType = src.try_get_u8()?.try_into()?;
+            codec::check_single_property(&mut properties_read, property_type)?;
             property_bytes_read += 1;
             match property_type {
                 PropertyType::SessionExpiryInterval => {
diff --git a/vaux-mqtt/src/publish.rs b/vaux-mqtt/src/publish.rs
index 16ad765..26f4189 100644
--- a/vaux-mqtt/src/publish.rs
+++ b/vaux-mqtt/src/publish.rs
@@ -297,8 +297,13 @@ impl codec::Decode for Publish {
         let property_length = property_length as usize;
         bytes_read += var_bytes_read;
         let mut property_bytes_read = 0_usize;
+        let mut properties_read = 0_u64;
         while property_bytes_read < property_length {
             let property_type: PropertyType = src.try_get_u8()?.try_into()?;
+            // one subscription identifier for each of the matching subscriptions
+            if property_type != PropertyType::SubscriptionIdentifier {
+                codec::check_single_property(&mut properties_read, property_type)?;
+            }
             property_bytes_read += 1;
             match property_type {
                 PropertyType::MessageExpiry => {
-- 
2.43.0


From 849652c7806d2b3d43f873c94a94e7b6d74c44d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:56 +0000
Subject: [PATCH 61/79] fix: request information properties of CONNECT other
 than 0 and 1 are malformed

---
 vaux-mqtt/src/connect.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/vaux-mqtt/src/connect.rs b/vaux-mqtt/src/connect.rs
index 27a0f8b..ef1c12d 100644
--- a/vaux-mqtt/src/connect.rs
+++ b/vaux-mqtt/src/connect.rs
@@ -243,12 +243,14 @@ impl codec::Decode for Connect {
                     property_bytes_read += 2;
                 }
                 PropertyType::ReqRespInfo => {
-                    self.request_response_info = Some(src.try_get_u8()? != 0);
-                    property_bytes_read += 1;
+                    let mut value = bool::default();
+                    property_bytes_read += value.decode(src)?;
+                    self.request_response_info = Some(value);
                 }
                 PropertyType::ReqProblemInfo => {
-                    self.request_problem_info = Some(src.try_get_u8()? != 0);
-                    property_bytes_read += 1;
+                    let mut value = bool::default();
+                    property_bytes_read += value.decode(src)?;
+                    self.request_problem_info = Some(value);
                 }
                 PropertyType::AuthMethod => {
                     let mut value = String::default();
-- 
2.43.0


From 2341556f83138587bdfbe673db1c63ec12ce63a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:56 +0000
Subject: [PATCH 62/79] fix: a subscription identifier is not 0

---
 vaux-mqtt/src/codec/mod.rs | 12 ++++++++++++
 vaux-mqtt/src/publish.rs   |  4 ++--
 vaux-mqtt/src/subscribe.rs |  6 +++---
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index 878b9d4..f603e63 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -741,6 +741,18 @@ pub fn decode_opt_variable_byte_int(
     Ok((Some(val), bytes_read))
 }
 
+/// Decodes a subscription identifier, which is not 0
+pub fn decode_subscription_identifier(
+    src: &mut BytesMut,
+) -> Result<(Option<u32>, usize), MqttCodecError> {
+    match decode_opt_variable_byte_int(src)? {
+        (Some(0), _) => Err(MqttCodecError::new(
+            "malformed packet: subscription identifier must not be 0",
+        )),
+        decoded => Ok(decoded),
+    }
+}
+
 pub fn decode_variable_byte_int(src: &mut BytesMut) -> Result<(u32, usize), MqttCodecError> {
     if !src.has_remaining() {
         return Err(MqttCodecError::new_with_kind(
diff --git a/vaux-mqtt/src/publish.rs b/vaux-mqtt/src/publish.rs
index 26f4189..ba25e31 100644
--- a/vaux-mqtt/src/publish.rs
+++ b/vaux-mqtt/src/publish.rs
@@ -75,7 +75,7 @@ pub struct Publish {
     #[codec(
         size_with = "codec::codec_size_opt_variable_byte_int_ref",
         encode_with = "codec::encode_opt_variable_byte_int_ref",
-        decode_with = "codec::decode_opt_variable_byte_int"
+        decode_with = "codec::decode_subscription_identifier"
     )]
     pub subscription_identifiers: Option<u32>,
     #[codec(property_type = "PropertyType::ContentType")]
@@ -331,7 +331,7 @@ impl codec::Decode for Publish {
                     self.correlation_data = value;
                 }
                 PropertyType::SubscriptionIdentifier => {
-                    let (value, decode_bytes_read) = codec::decode_opt_variable_byte_int(src)?;
+                    let (value, decode_bytes_read) = codec::decode_subscription_identifier(src)?;
                     property_bytes_read += decode_bytes_read;
                     self.subscription_identifiers = value;
                 }
diff --git a/vaux-mqtt/src/subscribe.rs b/vaux-mqtt/src/subscribe.rs
index 4ab9c96..6e8db75 100644
--- a/vaux-mqtt/src/subscribe.rs
+++ b/vaux-mqtt/src/subscribe.rs
@@ -1,4 +1,4 @@
-use crate::codec::{ErrorKind, MAX_VARIABLE_BYTE_INT, MIN_VARIABLE_BYTE_INT};
+use crate::codec::{ErrorKind, MAX_VARIABLE_BYTE_INT};
 use crate::{codec, MqttCodecError, PropertyType, Reason};
 use crate::{property::UserProperty, MqttError, MqttVersion, QoSLevel};
 use vaux_macro::{packet, CodecSize, Decode, Encode};
@@ -144,7 +144,7 @@ pub struct Subscribe {
     #[codec(
         size_with = "codec::codec_size_opt_variable_byte_int_ref",
         encode_with = "codec::encode_opt_variable_byte_int_ref",
-        decode_with = "codec::decode_opt_variable_byte_int"
+        decode_with = "codec::decode_subscription_identifier"
     )]
     pub subscription_id: Option<u32>,
     #[codec(property_type = "PropertyType::UserProperty")]
@@ -182,7 +182,7 @@ impl Subscribe {
     }
 
     pub fn set_subscription_id(&mut self, id: u32) -> Result<(), MqttError> {
-        if !(MIN_VARIABLE_BYTE_INT..=MAX_VARIABLE_BYTE_INT).contains(&id) {
+        if !(1..=MAX_VARIABLE_BYTE_INT).contains(&id) {
             return Err(MqttError::new_from_spec(
                 MqttVersion::V5,
                 "3.8.3",
-- 
2.43.0


From 915de81851ba74479e7575a93ace5efdbd9ba006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:56 +0000
Subject: [PATCH 63/79] fix: reserved subscription options are malformed

---
 vaux-mqtt/src/subscribe.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/vaux-mqtt/src/subscribe.rs b/vaux-mqtt/src/subscribe.rs
index 6e8db75..d0e3967 100644
--- a/vaux-mqtt/src/subscribe.rs
+++ b/vaux-mqtt/src/subscribe.rs
@@ -79,9 +79,26 @@ impl SubAck {
 #[derive(Debug, Default, Clone, PartialEq, Eq, Encode, Decode, CodecSize)]
 pub struct SubscriptionFilter {
     pub filter: String,
+    #[codec(decode_with = "decode_subscription_options")]
     options: u8,
 }
 
+/// Decodes the subscription options, which have reserved bits and values
+fn decode_subscription_options(
+    src: &mut bytes::BytesMut,
+) -> Result<(u8, usize), MqttCodecError> {
+    let mut options = u8::default();
+    let bytes_read = codec::Decode::decode(&mut options, src)?;
+    QoSLevel::try_from(options & 0b0000_0011)?;
+    RetainHandling::try_from((options & 0b0011_0000) >> 4)?;
+    if options & 0b1100_0000 != 0 {
+        return Err(MqttCodecError::new(
+            "MQTTv5 3.8.3.1 reserved subscription options must be 0",
+        ));
+    }
+    Ok((options, bytes_read))
+}
+
 impl SubscriptionFilter {
     /// Create a new Subscription with the given filter and QoSLevel.
     /// The remaining fields are set to their default values.
-- 
2.43.0


From 460e08639a23024efd844336df119d9ed58c8210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:56 +0000
Subject: [PATCH 64/79] fix: reserved flags of CONNACK are malformed

---
 vaux-mqtt/src/connack.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/vaux-mqtt/src/connack.rs b/vaux-mqtt/src/connack.rs
index b17695f..523d2ac 100644
--- a/vaux-mqtt/src/connack.rs
+++ b/vaux-mqtt/src/connack.rs
@@ -8,6 +8,7 @@ const CONNACK_SESSION_PRESENT_MASK: u8 = 0x01;
 #[packet(packet_type = "codec::PacketType::ConnAck")]
 #[derive(Debug, Default, Clone, PartialEq, Eq)]
 pub struct ConnAck {
+    #[codec(decode_with = "decode_ack_flags")]
     ack_flags: u8,
     pub reason: Reason,
     #[codec(property_type = "PropertyType::SessionExpiryInterval")]
@@ -46,6 +47,16 @@ pub struct ConnAck {
     pub auth_data: Vec<u8>,
 }
 
+/// Decodes the connect acknowledge flags, which apart from session present are reserved
+fn decode_ack_flags(src: &mut bytes::BytesMut) -> Result<(u8, usize), MqttCodecError> {
+    let mut ack_flags = u8::default();
+    let bytes_read = codec::Decode::decode(&mut ack_flags, src)?;
+    if ack_flags & !CONNACK_SESSION_PRESENT_MASK != 0 {
+        return Err(MqttCodecError::new("invalid connect acknowledge flags"));
+    }
+    Ok((ack_flags, bytes_read))
+}
+
 impl ConnAck {
     /// Returns true if the session is present flag is set in the CONNACK packet.
     ///
-- 
2.43.0


From 4deedf6de4b48edf55ce04ffbad98115926ffda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:56 +0000
Subject: [PATCH 65/79] fix: a SUBSCRIBE or UNSUBSCRIBE without topic filter is
 malformed

---
 vaux-mqtt/src/codec/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index f603e63..65bafc7 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -543,6 +543,9 @@ fn decode_packet(
         PacketType::Subscribe => {
             let mut subscribe = Subscribe::default();
             subscribe.decode(src)?;
+            if subscribe.filter.is_empty() {
+                return Err(MqttCodecError::new("malformed packet: SUBSCRIBE without topic filter"));
+            }
             Ok(Packet::Subscribe(subscribe))
         }
         PacketType::SubAck => {
@@ -553,6 +556,9 @@ fn decode_packet(
         PacketType::Unsubscribe => {
             let mut unsubscribe = Unsubscribe::default();
             unsubscribe.decode(src)?;
+            if unsubscribe.topics.is_empty() {
+                return Err(MqttCodecError::new("malformed packet: UNSUBSCRIBE without topic filter"));
+            }
             Ok(Packet::Unsubscribe(unsubscribe))
         }
         PacketType::UnsubAck => {
-- 
2.43.0


From d27e7048be1a953fe52319cf0f434fb6cc6df392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:57 +0000
Subject: [PATCH 66/79] fix: a packet with the packet identifier 0 is malformed

---
 vaux-mqtt/src/codec/mod.rs   | 11 +++++++++++
 vaux-mqtt/src/publish.rs     |  5 +++--
 vaux-mqtt/src/pubresp.rs     |  1 +
 vaux-mqtt/src/subscribe.rs   |  2 ++
 vaux-mqtt/src/unsubscribe.rs |  2 ++
 5 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index 65bafc7..17d139d 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -724,6 +724,17 @@ pub fn codec_size_opt_variable_byte_int_ref(src: &Option<u32>) -> u32 {
     }
 }
 
+/// Decodes a packet identifier, which is not 0
+pub fn decode_packet_id(src: &mut BytesMut) -> Result<(u16, usize), MqttCodecError> {
+    match src.try_get_u16()? {
+        0 => Err(MqttCodecError::new_with_kind(
+            "2.2.1 Packet identifier must not be 0",
+            ErrorKind::InvalidPacketIdentifier,
+        )),
+        packet_id => Ok((packet_id, 2)),
+    }
+}
+
 /// Notes that a property of a packet was read. Apart from the user property no property may be
 /// present more than once.
 pub fn check_single_property(
diff --git a/vaux-mqtt/src/publish.rs b/vaux-mqtt/src/publish.rs
index ba25e31..1755e1f 100644
--- a/vaux-mqtt/src/publish.rs
+++ b/vaux-mqtt/src/publish.rs
@@ -289,8 +289,9 @@ impl codec::Decode for Publish {
         bytes_read += self.topic_name.decode(src)?;
 
         if self.fixed_header.qos() != QoSLevel::AtMostOnce {
-            self.packet_id = Some(src.try_get_u16()?);
-            bytes_read += 2;
+            let (packet_id, packet_id_bytes_read) = codec::decode_packet_id(src)?;
+            self.packet_id = Some(packet_id);
+            bytes_read += packet_id_bytes_read;
         }
 
         let (property_length, var_bytes_read) = codec::decode_variable_byte_int(src)?;
diff --git a/vaux-mqtt/src/pubresp.rs b/vaux-mqtt/src/pubresp.rs
index baba10e..d3ce83b 100644
--- a/vaux-mqtt/src/pubresp.rs
+++ b/vaux-mqtt/src/pubresp.rs
@@ -26,6 +26,7 @@ pub type PubRel = PubResp;
 pub struct PubResp {
     #[codec(skip)]
     fixed_header: codec::FixedHeader,
+    #[codec(decode_with = "codec::decode_packet_id")]
     pub packet_id: u16,
     #[codec(non_abbreviated)]
     reason: Option<codec::Reason>,
diff --git a/vaux-mqtt/src/subscribe.rs b/vaux-mqtt/src/subscribe.rs
index d0e3967..a3d2d44 100644
--- a/vaux-mqtt/src/subscribe.rs
+++ b/vaux-mqtt/src/subscribe.rs
@@ -35,6 +35,7 @@ impl TryFrom<u8> for RetainHandling {
 #[packet(packet_type = "codec::PacketType::SubAck")]
 #[derive(Debug, Default, Clone, PartialEq, Eq)]
 pub struct SubAck {
+    #[codec(decode_with = "codec::decode_packet_id")]
     packet_id: u16,
     #[codec(property_type = "PropertyType::ReasonString")]
     pub reason: Option<String>,
@@ -156,6 +157,7 @@ impl SubscriptionFilter {
 #[packet(packet_type = "codec::PacketType::Subscribe")]
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub struct Subscribe {
+    #[codec(decode_with = "codec::decode_packet_id")]
     pub packet_id: u16,
     #[codec(property_type = "PropertyType::SubscriptionIdentifier")]
     #[codec(
diff --git a/vaux-mqtt/src/unsubscribe.rs b/vaux-mqtt/src/unsubscribe.rs
index bbf0d03..de53745 100644
--- a/vaux-mqtt/src/unsubscribe.rs
+++ b/vaux-mqtt/src/unsubscribe.rs
@@ -9,6 +9,7 @@ use crate::{
 #[packet(packet_type = "codec::PacketType::UnsubAck")]
 #[derive(Debug, Default, Clone, PartialEq, Eq)]
 pub struct UnsubAck {
+    #[codec(decode_with = "codec::decode_packet_id")]
     pub packet_id: u16,
     #[codec(property_type = "PropertyType::ReasonString")]
     pub reason: String,
@@ -21,6 +22,7 @@ pub struct UnsubAck {
 #[packet(packet_type = "codec::PacketType::Unsubscribe")]
 #[derive(Debug, Default, Clone, PartialEq, Eq)]
 pub struct Unsubscribe {
+    #[codec(decode_with = "codec::decode_packet_id")]
     pub packet_id: u16,
     #[codec(property_type = "PropertyType::UserProperty")]
     pub props: UserProperty,
-- 
2.43.0


From 72f4d9cd31f7e065ea8b108914606b37d620494d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:57 +0000
Subject: [PATCH 67/79] fix: a receive maximum or maximum packet size of 0 is a
 protocol error

---
 vaux-mqtt/src/codec/mod.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index 17d139d..357a826 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -503,6 +503,7 @@ fn decode_packet(
         PacketType::Connect => {
             let mut connect = Connect::new();
             connect.decode(src)?;
+            check_limits(connect.receive_maximum, connect.max_packet_size)?;
             Ok(Packet::Connect(Box::new(connect)))
         }
         PacketType::Publish => {
@@ -538,6 +539,7 @@ fn decode_packet(
         PacketType::ConnAck => {
             let mut connack = ConnAck::default();
             connack.decode(src)?;
+            check_limits(connack.receive_maximum, connack.maximum_packet_size)?;
             Ok(Packet::ConnAck(connack))
         }
         PacketType::Subscribe => {
@@ -724,6 +726,19 @@ pub fn codec_size_opt_variable_byte_int_ref(src: &Option<u32>) -> u32 {
     }
 }
 
+/// Checks the receive maximum and maximum packet size limits, neither of which may be 0
+pub(crate) fn check_limits(
+    receive_maximum: Option<u16>,
+    max_packet_size: Option<u32>,
+) -> Result<(), MqttCodecError> {
+    if receive_maximum == Some(0) || max_packet_size == Some(0) {
+        return Err(MqttCodecError::new(
+            "receive maximum and maximum packet size must not be 0",
+        ));
+    }
+    Ok(())
+}
+
 /// Decodes a packet identifier, which is not 0
 pub fn decode_packet_id(src: &mut BytesMut) -> Result<(u16, usize), MqttCodecError> {
     match src.try_get_u16()? {
-- 
2.43.0


From 47d936fa9f3362b444d8b10e44d6887b89a354e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:24 +0000
Subject: [PATCH 68/79] fix: a maximum QoS other than 0 and 1 is a protocol
 error

---
 vaux-mqtt/src/codec/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index 357a826..da22e1a 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -540,6 +540,9 @@ fn decode_packet(
             let mut connack = ConnAck::default();
             connack.decode(src)?;
             check_limits(connack.receive_maximum, connack.maximum_packet_size)?;
+            if connack.maximum_qos == Some(QoSLevel::ExactlyOnce) {
+                return Err(MqttCodecError::new("maximum QoS must be 0 or 1"));
+            }
             Ok(Packet::ConnAck(connack))
         }
         PacketType::Subscribe => {
-- 
2.43.0


From 5ff6bbed87a5a0fa511a2ebd2691f47bb861bae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:47 +0000
Subject: [PATCH 69/79] fix: no more messages are unacknowledged than the
 client's receive maximum allows

---
 vaux-broker/src/lib.rs | 105 +++++++++++++++++++++++++++++------------
 1 file changed, 76 insertions(+), 29 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 592a43c..81adadb 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -9,6 +9,7 @@ use session::Session;
 use session::SessionConnection;
 use session::SessionControl;
 use session::SessionPool;
+use std::collections::{HashSet, VecDeque};
 use std::sync::atomic::{AtomicBool, Ordering};
 use std::sync::Arc;
 use std::time::Duration;
@@ -109,6 +110,50 @@ struct AcceptedConnection {
     connection: SessionConnection,
     ack: ConnAck,
     pending: Vec<(u16, Publish)>,
+    receive_maximum: u16,
+}
+
+/// The messages for the client of a connection that still have to be written. No more of them
+/// are unacknowledged at a time than the client is willing to process.
+struct Outgoing {
+    /// what is left of an earlier connection of the session comes first
+    pending: VecDeque<(u16, Publish)>,
+    control: Receiver<SessionControl>,
+    unacknowledged: HashSet<u16>,
+    receive_maximum: usize,
+}
+
+impl Outgoing {
+    async fn next(&mut self) -> Option<Publish> {
+        if self.unacknowledged.len() >= self.receive_maximum {
+            return None;
+        }
+        let publish = if let Some((packet_id, mut publish)) = self.pending.pop_front() {
+            publish.set_dup(true).ok();
+            let _ = publish.set_packet_id(Some(packet_id));
+            publish
+        } else {
+            let SessionControl::Deliver(publish) = self.control.recv().await?;
+            *publish
+        };
+        if let Some(packet_id) = publish.packet_id() {
+            self.unacknowledged.insert(packet_id);
+        }
+        Some(publish)
+    }
+
+    fn acknowledged(&mut self, packet: &Packet) {
+        match packet {
+            Packet::PubAck(ack) => {
+                self.unacknowledged.remove(&ack.packet_id);
+                self.pending.retain(|(packet_id, _)| *packet_id != ack.packet_id);
+            }
+            Packet::PubRec(ack) => {
+                self.unacknowledged.remove(&ack.packet_id);
+            }
+            _ => {}
+        }
+    }
 }
 
 #[derive(Debug)]
@@ -256,7 +301,7 @@ impl Broker {
         state: &BrokerState,
         client_session: &mut Option<(Arc<RwLock<Session>>, u64)>,
     ) -> Result<(), BrokerError> {
-        let mut session_control: Option<Receiver<SessionControl>> = None;
+        let mut outgoing: Option<Outgoing> = None;
         let mut close: Option<watch::Receiver<Option<Reason>>> = None;
         let mut keep_alive = DEFAULT_KEEP_ALIVE;
         let mut last_received = Instant::now();
@@ -266,14 +311,12 @@ impl Broker {
                     Broker::send_disconnect(stream, reason).await;
                     return Ok(());
                 }
-                ctrl = Broker::handle_control(&mut session_control) => {
-                    if let Some(SessionControl::Deliver(publish)) = ctrl {
-                        let mut packet = Packet::Publish(*publish);
-                        if !Broker::write_until_closed(
-                            stream, &mut packet, &mut close, last_received, keep_alive,
-                        ).await? {
-                            return Ok(());
-                        }
+                publish = Broker::next_outgoing(&mut outgoing) => {
+                    let mut packet = Packet::Publish(publish);
+                    if !Broker::write_until_closed(
+                        stream, &mut packet, &mut close, last_received, keep_alive,
+                    ).await? {
+                        return Ok(());
                     }
                 }
                 _ = Broker::keep_alive_timer(last_received, keep_alive) => {
@@ -291,6 +334,9 @@ impl Broker {
                     last_received = Instant::now();
                     if let Some((session, connection)) = client_session {
                         let disconnect = matches!(packet, Packet::Disconnect(_));
+                        if let Some(outgoing) = &mut outgoing {
+                            outgoing.acknowledged(&packet);
+                        }
                         let reply = Broker::handle_packet(
                             packet, stream, Arc::clone(session), *connection, state,
                         ).await?;
@@ -307,20 +353,21 @@ impl Broker {
                     } else if let Some(accepted) = Broker::handle_pre_connect(packet, stream, state).await? {
                         *client_session = Some((Arc::clone(&accepted.session), accepted.connection.id));
                         keep_alive = accepted.session.read().await.keep_alive();
-                        session_control = Some(accepted.connection.control);
                         close = Some(accepted.connection.close);
-                        let mut packets = vec![Packet::ConnAck(accepted.ack)];
-                        for (packet_id, mut publish) in accepted.pending {
-                            publish.set_dup(true).ok();
-                            let _ = publish.set_packet_id(Some(packet_id));
-                            packets.push(Packet::Publish(publish));
-                        }
-                        for mut packet in packets {
-                            if !Broker::write_until_closed(
-                                stream, &mut packet, &mut close, last_received, keep_alive,
-                            ).await? {
-                                return Ok(());
-                            }
+                        outgoing = Some(Outgoing {
+                            pending: accepted.pending.into(),
+                            control: accepted.connection.control,
+                            unacknowledged: HashSet::new(),
+                            receive_maximum: accepted.receive_maximum as usize,
+                        });
+                        if !Broker::write_until_closed(
+                            stream,
+                            &mut Packet::ConnAck(accepted.ack),
+                            &mut close,
+                            last_received,
+                            keep_alive,
+                        ).await? {
+                            return Ok(());
                         }
                     }
                 }
@@ -542,15 +589,14 @@ impl Broker {
         unsuback
     }
 
-    async fn handle_control(
-        control_channel: &mut Option<Receiver<SessionControl>>,
-    ) -> Option<SessionControl> {
-        if let Some(rx) = control_channel {
-            if let Some(control) = rx.recv().await {
-                return Some(control);
+    async fn next_outgoing(outgoing: &mut Option<Outgoing>) -> Publish {
+        if let Some(outgoing) = outgoing {
+            if let Some(publish) = outgoing.next().await {
+                return publish;
             }
         }
-        // no session, or its channel is closed: there is nothing to wait for
+        // no session, its channel is closed, or an acknowledgement is due before any more:
+        // there is nothing to wait for
         std::future::pending().await
     }
 
@@ -736,6 +782,7 @@ impl Broker {
             connection,
             ack,
             pending,
+            receive_maximum: connect.receive_maximum.unwrap_or(u16::MAX),
         }))
     }
 
-- 
2.43.0


From a41bd2a691409b987b39b88a595c82d9eeeb9d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:02 +0000
Subject: [PATCH 70/79] fix: messages larger than the client's maximum packet
 size are not sent

---
 vaux-broker/src/lib.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 81adadb..4b8b113 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -3,6 +3,7 @@ pub(crate) mod session;
 pub(crate) mod topic;
 
 pub use config::Config;
+use bytes::BytesMut;
 use config::{BROKER_KEEP_ALIVE_FACTOR, DEFAULT_KEEP_ALIVE};
 use session::PendingWill;
 use session::Session;
@@ -23,6 +24,7 @@ use tokio::{
 use topic::TopicTree;
 use uuid::Uuid;
 use vaux_async::stream::{AsyncMqttStream, MqttStream, PacketStream};
+use vaux_mqtt::codec::Encode;
 use vaux_mqtt::subscribe::SubAck;
 use vaux_mqtt::unsubscribe::{UnsubAck, Unsubscribe};
 use vaux_mqtt::Packet::PingResponse;
@@ -111,6 +113,7 @@ struct AcceptedConnection {
     ack: ConnAck,
     pending: Vec<(u16, Publish)>,
     receive_maximum: u16,
+    maximum_packet_size: Option<u32>,
 }
 
 /// The messages for the client of a connection that still have to be written. No more of them
@@ -121,6 +124,7 @@ struct Outgoing {
     control: Receiver<SessionControl>,
     unacknowledged: HashSet<u16>,
     receive_maximum: usize,
+    maximum_packet_size: Option<u32>,
 }
 
 impl Outgoing {
@@ -142,6 +146,16 @@ impl Outgoing {
         Some(publish)
     }
 
+    /// MQTTv5 3.1.2.11.4 a message the client does not accept is discarded
+    fn discard(&mut self, packet: &Packet) -> Result<bool, BrokerError> {
+        let Some(maximum) = self.maximum_packet_size else {
+            return Ok(false);
+        };
+        let mut encoded = BytesMut::new();
+        packet.encode(&mut encoded)?;
+        Ok(encoded.len() > maximum as usize)
+    }
+
     fn acknowledged(&mut self, packet: &Packet) {
         match packet {
             Packet::PubAck(ack) => {
@@ -312,7 +326,17 @@ impl Broker {
                     return Ok(());
                 }
                 publish = Broker::next_outgoing(&mut outgoing) => {
+                    let packet_id = publish.packet_id();
                     let mut packet = Packet::Publish(publish);
+                    if let Some(outgoing) = &mut outgoing {
+                        if outgoing.discard(&packet)? {
+                            if let (Some(packet_id), Some((session, _))) = (packet_id, &client_session) {
+                                outgoing.unacknowledged.remove(&packet_id);
+                                session.write().await.acknowledge(packet_id);
+                            }
+                            continue;
+                        }
+                    }
                     if !Broker::write_until_closed(
                         stream, &mut packet, &mut close, last_received, keep_alive,
                     ).await? {
@@ -359,6 +383,7 @@ impl Broker {
                             control: accepted.connection.control,
                             unacknowledged: HashSet::new(),
                             receive_maximum: accepted.receive_maximum as usize,
+                            maximum_packet_size: accepted.maximum_packet_size,
                         });
                         if !Broker::write_until_closed(
                             stream,
@@ -783,6 +808,7 @@ impl Broker {
             ack,
             pending,
             receive_maximum: connect.receive_maximum.unwrap_or(u16::MAX),
+            maximum_packet_size: connect.max_packet_size,
         }))
     }
 
-- 
2.43.0


From b5218224f7c1ead8191b23400c3ae49754733c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:05 +0000
Subject: [PATCH 71/79] fix: a broker that was stopped can run again

---
 vaux-broker/src/lib.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 4b8b113..aa807b4 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -216,7 +216,17 @@ impl Broker {
         let state = self.state.clone();
         match TcpListener::bind(self.state.config.listen_addr).await {
             Ok(listener) => {
-                let mut command = self.command_channel.1.take().unwrap();
+                let mut command = match self.command_channel.1.take() {
+                    Some(command) => command,
+                    None => {
+                        // run again, there is nobody left to take commands
+                        let (sender, receiver) = tokio::sync::mpsc::channel(
+                            self.state.config.session_channel_size,
+                        );
+                        self.command_channel.0 = sender;
+                        receiver
+                    }
+                };
 
                 let _handle: JoinHandle<Result<(), BrokerError>> = tokio::spawn(async move {
                     loop {
-- 
2.43.0


From 6e9833bb76ed5ab5d9a15fe4730e8b3339b1f917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:25 +0000
Subject: [PATCH 72/79] fix: a session channel size of 0 does not panic

---
 vaux-broker/src/lib.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index aa807b4..108ab68 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -17,7 +17,7 @@ use std::time::Duration;
 use tokio::{
     net::TcpListener,
     select,
-    sync::{mpsc::Receiver, mpsc::Sender, oneshot, watch, RwLock},
+    sync::{mpsc::Receiver, mpsc::Sender, oneshot, watch, RwLock, Semaphore},
     task::JoinHandle,
     time::Instant,
 };
@@ -91,7 +91,11 @@ pub struct BrokerState {
 }
 
 impl BrokerState {
-    fn new(config: config::Config) -> Self {
+    fn new(mut config: config::Config) -> Self {
+        // what a channel can hold
+        config.session_channel_size = config
+            .session_channel_size
+            .clamp(1, Semaphore::MAX_PERMITS);
         let session_pool = SessionPool::new_with_config(&config);
         Self {
             config: Arc::new(config),
@@ -188,9 +192,10 @@ impl Default for Broker {
 
 impl Broker {
     pub fn new_with_config(config: config::Config) -> Self {
-        let (sender, receiver) = tokio::sync::mpsc::channel(config.session_channel_size);
+        let state = BrokerState::new(config);
+        let (sender, receiver) = tokio::sync::mpsc::channel(state.config.session_channel_size);
         Broker {
-            state: BrokerState::new(config),
+            state,
             command_channel: (sender, Some(receiver)),
         }
     }
-- 
2.43.0


From 9ca76bd11d5eaa39e0f72942faebfcd95691ea0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:55 +0000
Subject: [PATCH 73/79] fix: the broker keeps reading from a client it is
 writing to

A client that was sent more than its connection could take was not read from until it read:
its PINGREQ and DISCONNECT went unnoticed, and two sides that were both writing waited for each
other.
---
 vaux-async/src/stream/mod.rs    |   2 +-
 vaux-async/src/stream/packet.rs | 147 ++++++++++++++++++++++++++------
 vaux-broker/src/lib.rs          |  58 +++----------
 3 files changed, 134 insertions(+), 73 deletions(-)

diff --git a/vaux-async/src/stream/mod.rs b/vaux-async/src/stream/mod.rs
index 271a3da..303b9d1 100644
--- a/vaux-async/src/stream/mod.rs
+++ b/vaux-async/src/stream/mod.rs
@@ -1,6 +1,6 @@
 pub mod packet;
 
-pub use packet::{Error, PacketStream};
+pub use packet::{Error, PacketStream, Progress};
 
 use std::pin::Pin;
 use tokio::io::{AsyncRead, AsyncWrite};
diff --git a/vaux-async/src/stream/packet.rs b/vaux-async/src/stream/packet.rs
index 9e636c7..4008ced 100644
--- a/vaux-async/src/stream/packet.rs
+++ b/vaux-async/src/stream/packet.rs
@@ -1,11 +1,16 @@
 use super::AsyncMqttStream;
-use bytes::{Bytes, BytesMut};
+use bytes::{Buf, Bytes, BytesMut};
 use std::fmt::Display;
-use tokio::io::{AsyncReadExt, AsyncWriteExt};
+use std::future::poll_fn;
+use std::pin::Pin;
+use std::task::{Context, Poll, ready};
+use tokio::io::{AsyncRead, AsyncWrite, AsyncWriteExt, ReadBuf};
 use vaux_mqtt::codec::{Encode, Packet, decode};
 
 const READ_BUFFER_SIZE: usize = 4096;
 const MAX_BUFFER_SIZE: usize = 4096 * 1024;
+/// No more is read by `progress` from a peer that does not read what was queued for it
+const MAX_QUEUED: usize = 64 * 1024;
 
 #[derive(Debug)]
 pub enum Error {
@@ -26,11 +31,23 @@ impl Display for Error {
     }
 }
 
+/// What `PacketStream::progress` has achieved
+#[derive(Debug)]
+pub enum Progress {
+    /// the next packet, none at the end of the stream
+    Read(Option<Packet>),
+    /// all packets queued are written
+    Written,
+}
+
 #[derive(Debug)]
 pub struct PacketStream {
     read_buffer: Vec<u8>,
     read_offset: usize,
     max_buffer_size: usize,
+    queued: BytesMut,
+    unflushed: bool,
+    write_error: Option<std::io::Error>,
     stream: AsyncMqttStream,
 }
 
@@ -48,6 +65,9 @@ impl PacketStream {
             read_buffer: vec![0; initial_buffer_size],
             read_offset: 0,
             max_buffer_size,
+            queued: BytesMut::new(),
+            unflushed: false,
+            write_error: None,
             stream,
         }
     }
@@ -70,29 +90,38 @@ impl PacketStream {
     ///
     ///
     pub async fn read(&mut self) -> Result<Option<Packet>, Error> {
-        let result = self.read_internal(false).await;
-        match result {
-            Ok(Some((packet, _))) => Ok(Some(packet)),
-            Ok(None) => Ok(None),
-            Err(e) => Err(e),
+        loop {
+            if let Progress::Read(packet) = self.read_internal(None).await? {
+                return Ok(packet);
+            }
+        }
+    }
+
+    /// Reads the next packet and meanwhile writes those queued, so that neither has to wait for
+    /// the peer to do the other. Returns as soon as one of it is done.
+    ///
+    /// Cancel safe.
+    pub async fn progress(&mut self) -> Result<Progress, Error> {
+        if self.queued.len() >= MAX_QUEUED {
+            poll_fn(|cx| self.poll_queued(cx)).await;
+            return Ok(Progress::Written);
         }
+        self.read_internal(None).await
     }
 
     pub async fn read_raw(&mut self) -> Result<Option<(Packet, Bytes)>, Error> {
-        let result = self.read_internal(true).await;
-        match result {
-            Ok(Some((packet, Some(bytes)))) => Ok(Some((packet, bytes))),
-            // this would be an error to get a packet without bytes when raw is requested
-            Ok(Some((_, None))) => Err(Error::ReadBuffer),
-            Ok(None) => Ok(None),
-            Err(e) => Err(e),
+        let mut bytes = Bytes::new();
+        loop {
+            if let Progress::Read(packet) = self.read_internal(Some(&mut bytes)).await? {
+                return Ok(packet.map(|packet| (packet, bytes)));
+            }
         }
     }
 
     async fn read_internal(
         &mut self,
-        with_bytes: bool,
-    ) -> Result<Option<(Packet, Option<Bytes>)>, Error> {
+        mut raw: Option<&mut Bytes>,
+    ) -> Result<Progress, Error> {
         let mut bytes_read = self.read_offset;
         loop {
             if bytes_read > 0 {
@@ -100,8 +129,9 @@ impl PacketStream {
                 match decode(bytes_mut) {
                     Ok(data_read) => {
                         if let Some((packet, decode_len)) = data_read {
-                            let packet_bytes = with_bytes
-                                .then(|| Bytes::copy_from_slice(&self.read_buffer[..decode_len]));
+                            if let Some(raw) = &mut raw {
+                                **raw = Bytes::copy_from_slice(&self.read_buffer[..decode_len]);
+                            }
                             if decode_len < bytes_read {
                                 self.read_buffer.copy_within(decode_len..bytes_read, 0);
                                 // adjust offset to end of decoded bytes
@@ -109,9 +139,9 @@ impl PacketStream {
                             } else {
                                 self.read_offset = 0;
                             }
-                            return Ok(Some((packet, packet_bytes)));
+                            return Ok(Progress::Read(Some(packet)));
                         } else {
-                            return Ok(None);
+                            return Ok(Progress::Read(None));
                         }
                     }
                     Err(e) => match &e.kind {
@@ -128,15 +158,21 @@ impl PacketStream {
                     },
                 }
             }
-            match self
-                .stream
-                .read(&mut self.read_buffer[self.read_offset..])
-                .await
-            {
+            let read = match poll_fn(|cx| self.poll_read_and_queued(cx)).await {
+                Ok(None) => return Ok(Progress::Written),
+                Ok(Some(len)) => Ok(len),
+                Err(e) => Err(e),
+            };
+            if matches!(read, Ok(0) | Err(_)) {
+                if let Some(e) = self.write_error.take() {
+                    return Err(Error::Io(e));
+                }
+            }
+            match read {
                 Ok(len) => {
                     if len == 0 {
                         if bytes_read == 0 {
-                            return Ok(None);
+                            return Ok(Progress::Read(None));
                         }
                         // closed with an incomplete packet in the buffer
                         return Err(Error::Io(std::io::ErrorKind::UnexpectedEof.into()));
@@ -163,12 +199,68 @@ impl PacketStream {
         }
     }
 
+    /// Takes a packet that is written while packets are read
+    pub fn queue(&mut self, packet: &Packet) -> Result<(), Error> {
+        let queued = self.queued.len();
+        if let Err(e) = packet.encode(&mut self.queued) {
+            self.queued.truncate(queued);
+            return Err(Error::Codec(e));
+        }
+        Ok(())
+    }
+
+    /// True if no packet queued is left to be written
+    pub fn is_written(&self) -> bool {
+        self.queued.is_empty() && !self.unflushed
+    }
+
+    /// Writes what is queued. An error is not reported before what the peer has sent was read.
+    fn poll_queued(&mut self, cx: &mut Context<'_>) -> Poll<()> {
+        let result = ready!(self.poll_write_queued(cx));
+        if let Err(e) = result {
+            self.queued.clear();
+            self.unflushed = false;
+            self.write_error.get_or_insert(e);
+        }
+        Poll::Ready(())
+    }
+
+    fn poll_write_queued(&mut self, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
+        while !self.queued.is_empty() {
+            self.unflushed = true;
+            let len = ready!(Pin::new(&mut self.stream).poll_write(cx, &self.queued))?;
+            if len == 0 {
+                return Poll::Ready(Err(std::io::ErrorKind::WriteZero.into()));
+            }
+            self.queued.advance(len);
+        }
+        ready!(Pin::new(&mut self.stream).poll_flush(cx))?;
+        self.unflushed = false;
+        Poll::Ready(Ok(()))
+    }
+
+    /// Reads from the socket and writes what is queued, None as soon as that is done
+    fn poll_read_and_queued(&mut self, cx: &mut Context<'_>) -> Poll<std::io::Result<Option<usize>>> {
+        if !self.is_written() && self.poll_queued(cx).is_ready() {
+            return Poll::Ready(Ok(None));
+        }
+        let mut buffer = ReadBuf::new(&mut self.read_buffer[self.read_offset..]);
+        ready!(Pin::new(&mut self.stream).poll_read(cx, &mut buffer))?;
+        Poll::Ready(Ok(Some(buffer.filled().len())))
+    }
+
     pub async fn write(&mut self, packet: &mut Packet) -> Result<(), Error> {
         let mut dest = BytesMut::default();
         let result = packet.encode(&mut dest);
         if let Err(e) = result {
             return Err(Error::Codec(e));
         }
+        if !self.is_written() {
+            // this comes first
+            if let Err(e) = poll_fn(|cx| self.poll_write_queued(cx)).await {
+                return Err(Error::Io(e));
+            }
+        }
         if let Err(e) = self.stream.write_all(&dest).await {
             return Err(Error::Io(e));
         }
@@ -180,6 +272,9 @@ impl PacketStream {
     }
 
     pub async fn shutdown(&mut self) -> Result<(), Error> {
+        if !self.is_written() {
+            poll_fn(|cx| self.poll_queued(cx)).await;
+        }
         if let Err(e) = self.stream.shutdown().await {
             return Err(Error::Io(e));
         }
diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 108ab68..e627e4b 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -23,7 +23,7 @@ use tokio::{
 };
 use topic::TopicTree;
 use uuid::Uuid;
-use vaux_async::stream::{AsyncMqttStream, MqttStream, PacketStream};
+use vaux_async::stream::{AsyncMqttStream, MqttStream, PacketStream, Progress};
 use vaux_mqtt::codec::Encode;
 use vaux_mqtt::subscribe::SubAck;
 use vaux_mqtt::unsubscribe::{UnsubAck, Unsubscribe};
@@ -340,9 +340,9 @@ impl Broker {
                     Broker::send_disconnect(stream, reason).await;
                     return Ok(());
                 }
-                publish = Broker::next_outgoing(&mut outgoing) => {
+                publish = Broker::next_outgoing(&mut outgoing), if stream.is_written() => {
                     let packet_id = publish.packet_id();
-                    let mut packet = Packet::Publish(publish);
+                    let packet = Packet::Publish(publish);
                     if let Some(outgoing) = &mut outgoing {
                         if outgoing.discard(&packet)? {
                             if let (Some(packet_id), Some((session, _))) = (packet_id, &client_session) {
@@ -352,11 +352,7 @@ impl Broker {
                             continue;
                         }
                     }
-                    if !Broker::write_until_closed(
-                        stream, &mut packet, &mut close, last_received, keep_alive,
-                    ).await? {
-                        return Ok(());
-                    }
+                    stream.queue(&packet)?;
                 }
                 _ = Broker::keep_alive_timer(last_received, keep_alive) => {
                     if let Some((session, _)) = client_session {
@@ -366,9 +362,11 @@ impl Broker {
                     }
                     return Ok(());
                 }
-                packet_result = stream.read() => {
-                    let Some(packet) = packet_result? else {
-                        return Ok(());
+                progress = stream.progress() => {
+                    let packet = match progress? {
+                        Progress::Read(Some(packet)) => packet,
+                        Progress::Read(None) => return Ok(()),
+                        Progress::Written => continue,
                     };
                     last_received = Instant::now();
                     if let Some((session, connection)) = client_session {
@@ -379,12 +377,8 @@ impl Broker {
                         let reply = Broker::handle_packet(
                             packet, stream, Arc::clone(session), *connection, state,
                         ).await?;
-                        if let Some(mut reply) = reply {
-                            if !Broker::write_until_closed(
-                                stream, &mut reply, &mut close, last_received, keep_alive,
-                            ).await? {
-                                return Ok(());
-                            }
+                        if let Some(reply) = reply {
+                            stream.queue(&reply)?;
                         }
                         if disconnect {
                             return Ok(());
@@ -400,15 +394,7 @@ impl Broker {
                             receive_maximum: accepted.receive_maximum as usize,
                             maximum_packet_size: accepted.maximum_packet_size,
                         });
-                        if !Broker::write_until_closed(
-                            stream,
-                            &mut Packet::ConnAck(accepted.ack),
-                            &mut close,
-                            last_received,
-                            keep_alive,
-                        ).await? {
-                            return Ok(());
-                        }
+                        stream.queue(&Packet::ConnAck(accepted.ack))?;
                     }
                 }
             }
@@ -450,26 +436,6 @@ impl Broker {
         std::future::pending().await
     }
 
-    /// Writes a packet to a client that may have stopped reading. False if the connection has
-    /// to end first: part of the packet may be written then, nothing else can follow it.
-    async fn write_until_closed(
-        stream: &mut PacketStream,
-        packet: &mut Packet,
-        close: &mut Option<watch::Receiver<Option<Reason>>>,
-        last_received: Instant,
-        keep_alive: Duration,
-    ) -> Result<bool, BrokerError> {
-        select! {
-            biased;
-            result = stream.write(packet) => {
-                result?;
-                Ok(true)
-            }
-            _ = Broker::close_requested(close) => Ok(false),
-            _ = Broker::keep_alive_timer(last_received, keep_alive) => Ok(false),
-        }
-    }
-
     /// Sends a DISCONNECT to a client that may have stopped reading
     async fn send_disconnect(stream: &mut PacketStream, reason: Reason) {
         let mut packet = Packet::Disconnect(Disconnect::new(reason));
-- 
2.43.0


From e98b7a8ac84679fda2f857a2bfebb793e2801e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:26 +0000
Subject: [PATCH 74/79] fix: topic levels nobody subscribes to are removed

---
 vaux-broker/src/topic.rs | 53 ++++++++++++++++++++++++++++++++++------
 1 file changed, 46 insertions(+), 7 deletions(-)

diff --git a/vaux-broker/src/topic.rs b/vaux-broker/src/topic.rs
index a80b0ce..96935d1 100644
--- a/vaux-broker/src/topic.rs
+++ b/vaux-broker/src/topic.rs
@@ -39,6 +39,8 @@ struct TopicNode {
 #[derive(Debug)]
 pub struct TopicTree {
     nodes: Vec<TopicNode>,
+    /// nodes that can be used again
+    free: Vec<u32>,
 }
 
 impl Default for TopicTree {
@@ -54,7 +56,10 @@ impl TopicTree {
             segment: "".into(),
             ..Default::default()
         };
-        Self { nodes: vec![root] }
+        Self {
+            nodes: vec![root],
+            free: Vec::new(),
+        }
     }
 
     pub fn subscribe(
@@ -103,14 +108,39 @@ impl TopicTree {
 
         let before = list.len();
         list.retain(|s| *s.session_id != *session_id);
-        list.len() < before
+        let removed = list.len() < before;
+        self.prune(node_idx);
+        removed
     }
 
     pub fn unsubscribe_all(&mut self, session_id: &str) {
-        for node in &mut self.nodes {
+        for node_idx in 0..self.nodes.len() as u32 {
+            let node = &mut self.nodes[node_idx as usize];
+            let before = node.subscribers.len() + node.wildcard_subscribers.len();
             node.subscribers.retain(|s| *s.session_id != *session_id);
             node.wildcard_subscribers
                 .retain(|s| *s.session_id != *session_id);
+            if node.subscribers.len() + node.wildcard_subscribers.len() < before {
+                self.prune(node_idx);
+            }
+        }
+    }
+
+    /// Removes a node without any subscriber at or below it, and those above that are left so
+    fn prune(&mut self, mut node_idx: u32) {
+        while node_idx != ROOT_NODE {
+            let node = &mut self.nodes[node_idx as usize];
+            if !node.children.is_empty()
+                || !node.subscribers.is_empty()
+                || !node.wildcard_subscribers.is_empty()
+            {
+                return;
+            }
+            let node = std::mem::take(node);
+            self.free.push(node_idx);
+            let parent = &mut self.nodes[node.parent as usize];
+            parent.children.remove(&node.segment);
+            node_idx = node.parent;
         }
     }
 
@@ -177,12 +207,21 @@ impl TopicTree {
             if let Some(&child_idx) = self.nodes[current as usize].children.get(segment) {
                 current = child_idx;
             } else {
-                let new_idx = self.nodes.len() as u32;
-                self.nodes.push(TopicNode {
+                let new_node = TopicNode {
                     parent: current,
                     segment: segment.into(),
                     ..Default::default()
-                });
+                };
+                let new_idx = match self.free.pop() {
+                    Some(free_idx) => {
+                        self.nodes[free_idx as usize] = new_node;
+                        free_idx
+                    }
+                    None => {
+                        self.nodes.push(new_node);
+                        self.nodes.len() as u32 - 1
+                    }
+                };
                 self.nodes[current as usize]
                     .children
                     .insert(segment.into(), new_idx);
@@ -201,7 +240,7 @@ impl TopicTree {
     }
 
     pub fn node_count(&self) -> usize {
-        self.nodes.len()
+        self.nodes.len() - self.free.len()
     }
 }
 
-- 
2.43.0


From 520ecd84d585e16d0297cc48129a2e4fb99c97f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:26 +0000
Subject: [PATCH 75/79] fix: expired sessions are removed, with their
 subscriptions

---
 vaux-broker/src/lib.rs     | 36 ++++++++++++++++++++++++++++--------
 vaux-broker/src/session.rs | 11 +++++++++++
 2 files changed, 39 insertions(+), 8 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index e627e4b..b1bc6b5 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -410,21 +410,44 @@ impl Broker {
     ) {
         Broker::initiate_will(session, connection, state).await;
         let mut session_pool = state.session_pool.write().await;
-        let session_id = {
+        let (session_id, expiry) = {
             let session = session.read().await;
             if !session.owned_by(connection) {
                 return;
             }
-            if session.session_expiry().is_none() {
+            let Some(expiry) = session.session_expiry() else {
                 // the session ends with its connection
                 session_pool.remove(session.id());
                 state.topic_tree.write().await.unsubscribe_all(session.id());
                 return;
-            }
-            session.id().to_string()
+            };
+            (session.id().to_string(), expiry)
         };
         tracing::info!(session_id = %session_id, "connection closed");
         session_pool.deactivate(&session_id).await;
+        let settled = session.write().await.await_expiry();
+        drop(session_pool);
+        let state = state.clone();
+        tokio::spawn(async move {
+            select! {
+                _ = tokio::time::sleep(expiry) => {
+                    let mut session_pool = state.session_pool.write().await;
+                    Broker::remove_expired(&mut session_pool, &session_id, &state).await;
+                }
+                _ = settled => {}
+            }
+        });
+    }
+
+    /// Removes a session that has expired, with its subscriptions
+    async fn remove_expired(
+        session_pool: &mut SessionPool,
+        session_id: &str,
+        state: &BrokerState,
+    ) {
+        if session_pool.remove_expired(session_id).await.is_some() {
+            state.topic_tree.write().await.unsubscribe_all(session_id);
+        }
     }
 
     async fn close_requested(close: &mut Option<watch::Receiver<Option<Reason>>>) -> Reason {
@@ -733,10 +756,7 @@ impl Broker {
             session_pool.add(Arc::clone(&new_session)).await;
             new_session
         } else {
-            if let Some(expired) = session_pool.remove_expired(&session_id).await {
-                let expired = expired.read().await;
-                state.topic_tree.write().await.unsubscribe_all(expired.id());
-            }
+            Broker::remove_expired(&mut session_pool, &session_id, state).await;
             if let Some(session) = session_pool.activate(&session_id).await {
                 {
                     let mut session = session.write().await;
diff --git a/vaux-broker/src/session.rs b/vaux-broker/src/session.rs
index 071e4ee..5989438 100644
--- a/vaux-broker/src/session.rs
+++ b/vaux-broker/src/session.rs
@@ -136,6 +136,7 @@ impl SessionPool {
             let mut session = session_guard.write().await;
             session.set_connected(true);
             session.set_last_active();
+            session.awaiting_expiry = None;
             self.active_sessions += 1;
             self.active
                 .insert(session.id().to_string(), Arc::clone(&session_guard));
@@ -213,6 +214,7 @@ pub struct Session {
     pub session_expiry: Option<Duration>,
     will_message: Option<WillMessage>,
     pending_will: Option<oneshot::Sender<PendingWill>>,
+    awaiting_expiry: Option<oneshot::Sender<()>>,
     next_packet_id: u16,
     pending_ack: HashMap<u16, (u64, Publish)>,
     track_sequence: u64,
@@ -239,6 +241,7 @@ impl Session {
             session_expiry: None,
             will_message,
             pending_will: None,
+            awaiting_expiry: None,
             next_packet_id: 1,
             pending_ack: HashMap::new(),
             track_sequence: 0,
@@ -324,6 +327,14 @@ impl Session {
         }
     }
 
+    /// Returns what completes once the session is resumed or removed, and need not be
+    /// watched for its expiry any more
+    pub(crate) fn await_expiry(&mut self) -> oneshot::Receiver<()> {
+        let (awaiting, settled) = oneshot::channel();
+        self.awaiting_expiry = Some(awaiting);
+        settled
+    }
+
     pub fn next_packet_id(&mut self) -> u16 {
         let mut id = self.next_packet_id;
         // skip identifiers that are still waiting for an acknowledgement
-- 
2.43.0


From f1e6abd1ce7366c60d3e1d7f3616f382b04df2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:10 +0000
Subject: [PATCH 76/79] fix: a packet identifier in use is not used again when
 all are

---
 vaux-broker/src/lib.rs     | 10 +++++++++-
 vaux-broker/src/session.rs | 13 ++++++++-----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index b1bc6b5..2912215 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -904,7 +904,15 @@ impl Broker {
                 let _ = out.set_dup(false);
                 if qos != QoSLevel::AtMostOnce {
                     let mut target = target_session.write().await;
-                    let packet_id = target.next_packet_id();
+                    let Some(packet_id) = target.next_packet_id() else {
+                        tracing::warn!(
+                            session_id = %sub.session_id,
+                            topic = %publish.topic_name,
+                            "slow subscriber: no packet identifier is free, disconnecting"
+                        );
+                        target.close(Reason::QuotaExceeded);
+                        continue;
+                    };
                     let _ = out.set_packet_id(Some(packet_id));
                     target.track_qos_publish(packet_id, out.clone());
                     if let Err(_) = target.try_send_control(SessionControl::Deliver(Box::new(out))) {
diff --git a/vaux-broker/src/session.rs b/vaux-broker/src/session.rs
index 5989438..7169aed 100644
--- a/vaux-broker/src/session.rs
+++ b/vaux-broker/src/session.rs
@@ -335,20 +335,23 @@ impl Session {
         settled
     }
 
-    pub fn next_packet_id(&mut self) -> u16 {
-        let mut id = self.next_packet_id;
+    /// Returns the next packet identifier, None if all of them are in use
+    pub fn next_packet_id(&mut self) -> Option<u16> {
+        if self.pending_ack.len() >= u16::MAX as usize {
+            return None;
+        }
         // skip identifiers that are still waiting for an acknowledgement
         for _ in 0..u16::MAX {
-            id = self.next_packet_id;
+            let id = self.next_packet_id;
             self.next_packet_id = self.next_packet_id.wrapping_add(1);
             if self.next_packet_id == 0 {
                 self.next_packet_id = 1;
             }
             if !self.pending_ack.contains_key(&id) {
-                break;
+                return Some(id);
             }
         }
-        id
+        None
     }
 
     pub fn track_qos_publish(&mut self, packet_id: u16, publish: Publish) {
-- 
2.43.0


From 4789b6b0986549f7e4b625f99af850ad8128de35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:46 +0000
Subject: [PATCH 77/79] fix: the broker program ends with an error if it cannot
 start

---
 vaux/src/main.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vaux/src/main.rs b/vaux/src/main.rs
index 189e163..45ce10f 100644
--- a/vaux/src/main.rs
+++ b/vaux/src/main.rs
@@ -128,11 +128,11 @@ async fn main() {
     };
 
     let mut broker = Broker::new_with_config(config);
-    let result = broker.run().await;
-    println!("Broker started on: {listen_addr} ({tls_status})");
-    if let Err(e) = result {
+    if let Err(e) = broker.run().await {
         eprintln!("Error starting broker: {e}");
+        std::process::exit(1);
     }
+    println!("Broker started on: {listen_addr} ({tls_status})");
 
     tokio::signal::ctrl_c()
         .await
-- 
2.43.0


From a1d6a9c2c6b153be6066e0ab773d6670603c5402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:59 +0000
Subject: [PATCH 78/79] fix: the broker carries QoS 2 exchanges to their end

QoS 2 was granted to subscribers and accepted from publishers, but PUBREC,
PUBREL and PUBCOMP were neither sent nor handled: publishers repeated their
messages and ran out of packet identifiers, so did the broker for subscribers.
---
 vaux-broker/src/lib.rs     | 104 +++++++++++++++++++++++++++++--------
 vaux-broker/src/session.rs |  58 ++++++++++++++++++---
 2 files changed, 134 insertions(+), 28 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 2912215..9511069 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -5,7 +5,7 @@ pub(crate) mod topic;
 pub use config::Config;
 use bytes::BytesMut;
 use config::{BROKER_KEEP_ALIVE_FACTOR, DEFAULT_KEEP_ALIVE};
-use session::PendingWill;
+use session::{Pending, PendingWill};
 use session::Session;
 use session::SessionConnection;
 use session::SessionControl;
@@ -29,8 +29,8 @@ use vaux_mqtt::subscribe::SubAck;
 use vaux_mqtt::unsubscribe::{UnsubAck, Unsubscribe};
 use vaux_mqtt::Packet::PingResponse;
 use vaux_mqtt::{
-    ConnAck, Connect, Disconnect, MqttCodecError, Packet, PingResp, Publish, QoSLevel, Reason,
-    Subscribe, WillMessage,
+    ConnAck, Connect, Disconnect, MqttCodecError, Packet, PingResp, PubComp, PubRec, PubRel,
+    Publish, QoSLevel, Reason, Subscribe, WillMessage,
 };
 
 const INIT_STREAM_BUFFER_SIZE: usize = 4096;
@@ -115,7 +115,7 @@ struct AcceptedConnection {
     session: Arc<RwLock<Session>>,
     connection: SessionConnection,
     ack: ConnAck,
-    pending: Vec<(u16, Publish)>,
+    pending: Vec<(u16, Pending)>,
     receive_maximum: u16,
     maximum_packet_size: Option<u32>,
 }
@@ -124,7 +124,7 @@ struct AcceptedConnection {
 /// are unacknowledged at a time than the client is willing to process.
 struct Outgoing {
     /// what is left of an earlier connection of the session comes first
-    pending: VecDeque<(u16, Publish)>,
+    pending: VecDeque<(u16, Pending)>,
     control: Receiver<SessionControl>,
     unacknowledged: HashSet<u16>,
     receive_maximum: usize,
@@ -132,14 +132,22 @@ struct Outgoing {
 }
 
 impl Outgoing {
-    async fn next(&mut self) -> Option<Publish> {
+    async fn next(&mut self) -> Option<Packet> {
         if self.unacknowledged.len() >= self.receive_maximum {
             return None;
         }
-        let publish = if let Some((packet_id, mut publish)) = self.pending.pop_front() {
-            publish.set_dup(true).ok();
-            let _ = publish.set_packet_id(Some(packet_id));
-            publish
+        let publish = if let Some((packet_id, pending)) = self.pending.pop_front() {
+            match pending {
+                Pending::Publish(mut publish) => {
+                    publish.set_dup(true).ok();
+                    let _ = publish.set_packet_id(Some(packet_id));
+                    publish
+                }
+                Pending::Release => {
+                    self.unacknowledged.insert(packet_id);
+                    return Some(Packet::PubRel(PubRel::new_pubrel_with_packet_id(packet_id)));
+                }
+            }
         } else {
             let SessionControl::Deliver(publish) = self.control.recv().await?;
             *publish
@@ -147,7 +155,7 @@ impl Outgoing {
         if let Some(packet_id) = publish.packet_id() {
             self.unacknowledged.insert(packet_id);
         }
-        Some(publish)
+        Some(Packet::Publish(publish))
     }
 
     /// MQTTv5 3.1.2.11.4 a message the client does not accept is discarded
@@ -162,18 +170,30 @@ impl Outgoing {
 
     fn acknowledged(&mut self, packet: &Packet) {
         match packet {
-            Packet::PubAck(ack) => {
+            Packet::PubAck(ack) | Packet::PubComp(ack) => {
                 self.unacknowledged.remove(&ack.packet_id);
                 self.pending.retain(|(packet_id, _)| *packet_id != ack.packet_id);
             }
             Packet::PubRec(ack) => {
-                self.unacknowledged.remove(&ack.packet_id);
+                if is_refused(ack) {
+                    self.unacknowledged.remove(&ack.packet_id);
+                }
+                // answered with PUBREL
+                self.pending.retain(|(packet_id, pending)| match pending {
+                    Pending::Publish(publish) if publish.qos() != QoSLevel::ExactlyOnce => true,
+                    _ => *packet_id != ack.packet_id,
+                });
             }
             _ => {}
         }
     }
 }
 
+/// Whether a message was refused by its receiver
+fn is_refused(ack: &PubRec) -> bool {
+    ack.reason().is_some_and(|reason| reason as u8 >= 0x80)
+}
+
 #[derive(Debug)]
 pub struct Broker {
     state: BrokerState,
@@ -340,9 +360,11 @@ impl Broker {
                     Broker::send_disconnect(stream, reason).await;
                     return Ok(());
                 }
-                publish = Broker::next_outgoing(&mut outgoing), if stream.is_written() => {
-                    let packet_id = publish.packet_id();
-                    let packet = Packet::Publish(publish);
+                packet = Broker::next_outgoing(&mut outgoing), if stream.is_written() => {
+                    let packet_id = match &packet {
+                        Packet::Publish(publish) => publish.packet_id(),
+                        _ => None,
+                    };
                     if let Some(outgoing) = &mut outgoing {
                         if outgoing.discard(&packet)? {
                             if let (Some(packet_id), Some((session, _))) = (packet_id, &client_session) {
@@ -516,8 +538,21 @@ impl Broker {
                     return Err(MqttCodecError::new("PUBLISH topic refused").into());
                 }
                 let mut reply = None;
-                if publish.qos() == QoSLevel::AtLeastOnce {
+                if publish.qos() != QoSLevel::AtMostOnce {
                     match publish.packet_id() {
+                        Some(packet_id) if publish.qos() == QoSLevel::ExactlyOnce => {
+                            let pubrec = PubRec::new_pubrec_with_packet_id(packet_id);
+                            let mut session = session.write().await;
+                            if !session.owned_by(connection) {
+                                // taken over: sent again on the new connection
+                                return Ok(None);
+                            }
+                            if !session.receive(packet_id) {
+                                // MQTTv5 4.3.3 was routed before
+                                return Ok(Some(Packet::PubRec(pubrec)));
+                            }
+                            reply = Some(Packet::PubRec(pubrec));
+                        }
                         Some(packet_id) => {
                             let puback = vaux_mqtt::PubAck::new_puback_with_packet_id(packet_id);
                             reply = Some(Packet::PubAck(puback));
@@ -525,7 +560,7 @@ impl Broker {
                         None => {
                             Broker::send_disconnect(stream, Reason::MalformedPacket).await;
                             return Err(MqttCodecError::new(
-                                "QoS-1 PUBLISH missing packet ID",
+                                "PUBLISH missing packet ID",
                             ).into());
                         }
                     }
@@ -538,6 +573,32 @@ impl Broker {
                 session.acknowledge(puback.packet_id);
                 Ok(None)
             }
+            Packet::PubRec(pubrec) => {
+                let mut session = session.write().await;
+                let known = session.release(pubrec.packet_id);
+                if is_refused(&pubrec) {
+                    if known {
+                        session.acknowledge(pubrec.packet_id);
+                    }
+                    return Ok(None);
+                }
+                let mut pubrel = PubRel::new_pubrel_with_packet_id(pubrec.packet_id);
+                if !known {
+                    pubrel.set_reason(Reason::PacketIdNotFound)?;
+                }
+                Ok(Some(Packet::PubRel(pubrel)))
+            }
+            Packet::PubComp(pubcomp) => {
+                session.write().await.complete(pubcomp.packet_id);
+                Ok(None)
+            }
+            Packet::PubRel(pubrel) => {
+                let mut pubcomp = PubComp::new_pubcomp_with_packet_id(pubrel.packet_id);
+                if !session.write().await.forget_received(pubrel.packet_id) {
+                    pubcomp.set_reason(Reason::PacketIdNotFound)?;
+                }
+                Ok(Some(Packet::PubComp(pubcomp)))
+            }
             Packet::Disconnect(packet) => {
                 let max_expiry = state.session_pool.read().await.session_expiry();
                 let mut session = session.write().await;
@@ -564,7 +625,6 @@ impl Broker {
                 Broker::send_disconnect(stream, Reason::ProtocolErr).await;
                 Err(MqttCodecError::new("packet not allowed from a connected client").into())
             }
-            _ => Ok(None),
         }
     }
 
@@ -618,10 +678,10 @@ impl Broker {
         unsuback
     }
 
-    async fn next_outgoing(outgoing: &mut Option<Outgoing>) -> Publish {
+    async fn next_outgoing(outgoing: &mut Option<Outgoing>) -> Packet {
         if let Some(outgoing) = outgoing {
-            if let Some(publish) = outgoing.next().await {
-                return publish;
+            if let Some(packet) = outgoing.next().await {
+                return packet;
             }
         }
         // no session, its channel is closed, or an acknowledgement is due before any more:
diff --git a/vaux-broker/src/session.rs b/vaux-broker/src/session.rs
index 7169aed..0ae2db1 100644
--- a/vaux-broker/src/session.rs
+++ b/vaux-broker/src/session.rs
@@ -1,4 +1,8 @@
-use std::{collections::HashMap, sync::Arc, time::Duration};
+use std::{
+    collections::{HashMap, HashSet},
+    sync::Arc,
+    time::Duration,
+};
 use tokio::sync::{
     RwLock,
     mpsc::{self, Receiver, Sender},
@@ -6,7 +10,7 @@ use tokio::sync::{
     watch,
 };
 use tokio::time::Instant;
-use vaux_mqtt::{Publish, Reason, WillMessage};
+use vaux_mqtt::{Publish, QoSLevel, Reason, WillMessage};
 
 #[derive(Debug, Default)]
 pub struct SessionPool {
@@ -205,6 +209,15 @@ pub(crate) enum PendingWill {
     Publish,
 }
 
+/// What is left to do for a message that was sent to the client
+#[derive(Debug, Clone)]
+pub(crate) enum Pending {
+    /// PUBACK or PUBREC are due
+    Publish(Publish),
+    /// a QoS 2 message was received, PUBCOMP is due
+    Release,
+}
+
 #[derive(Debug)]
 pub struct Session {
     id: String,
@@ -216,7 +229,9 @@ pub struct Session {
     pending_will: Option<oneshot::Sender<PendingWill>>,
     awaiting_expiry: Option<oneshot::Sender<()>>,
     next_packet_id: u16,
-    pending_ack: HashMap<u16, (u64, Publish)>,
+    pending_ack: HashMap<u16, (u64, Pending)>,
+    /// QoS 2 messages of the client which it has not released
+    received: HashSet<u16>,
     track_sequence: u64,
     connection: u64,
     control: Sender<SessionControl>,
@@ -244,6 +259,7 @@ impl Session {
             awaiting_expiry: None,
             next_packet_id: 1,
             pending_ack: HashMap::new(),
+            received: HashSet::new(),
             track_sequence: 0,
             connection: 0,
             control,
@@ -357,24 +373,54 @@ impl Session {
     pub fn track_qos_publish(&mut self, packet_id: u16, publish: Publish) {
         self.track_sequence += 1;
         self.pending_ack
-            .insert(packet_id, (self.track_sequence, publish));
+            .insert(packet_id, (self.track_sequence, Pending::Publish(publish)));
     }
 
     pub fn acknowledge(&mut self, packet_id: u16) -> bool {
         self.pending_ack.remove(&packet_id).is_some()
     }
 
+    /// The client has received a QoS 2 message. Returns false if there is none with the
+    /// packet identifier.
+    pub(crate) fn release(&mut self, packet_id: u16) -> bool {
+        match self.pending_ack.get_mut(&packet_id) {
+            Some((_, Pending::Publish(publish))) if publish.qos() != QoSLevel::ExactlyOnce => false,
+            Some((_, pending)) => {
+                *pending = Pending::Release;
+                true
+            }
+            None => false,
+        }
+    }
+
+    /// The client has finished with a QoS 2 message it had been asked to release
+    pub(crate) fn complete(&mut self, packet_id: u16) {
+        if matches!(self.pending_ack.get(&packet_id), Some((_, Pending::Release))) {
+            self.pending_ack.remove(&packet_id);
+        }
+    }
+
+    /// Returns false if a QoS 2 message from the client was received before
+    pub(crate) fn receive(&mut self, packet_id: u16) -> bool {
+        self.received.insert(packet_id)
+    }
+
+    /// Returns false if there is no QoS 2 message from the client with the packet identifier
+    pub(crate) fn forget_received(&mut self, packet_id: u16) -> bool {
+        self.received.remove(&packet_id)
+    }
+
     pub fn pending_ack_count(&self) -> usize {
         self.pending_ack.len()
     }
 
     /// Messages waiting for an acknowledgement in the order they were first sent.
-    pub fn pending(&self) -> Vec<(u16, Publish)> {
+    pub(crate) fn pending(&self) -> Vec<(u16, Pending)> {
         let mut pending: Vec<_> = self.pending_ack.iter().collect();
         pending.sort_by_key(|(_, (sequence, _))| *sequence);
         pending
             .into_iter()
-            .map(|(packet_id, (_, publish))| (*packet_id, publish.clone()))
+            .map(|(packet_id, (_, pending))| (*packet_id, pending.clone()))
             .collect()
     }
 
-- 
2.43.0


From 50341981b831cbd1b59fa53ff28fe164310ac82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:42 +0000
Subject: [PATCH 79/79] fix: a PUBREL of the application for no message does
 not end the client

---
 vaux-client/src/session.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index 1f2f358..647115b 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -339,6 +339,11 @@ impl ClientSession {
             }
             Packet::PubRel(ref ack) => {
                 let packet_id = ack.packet_id;
+                // of a session that is gone, or sent before: the server's answer to it would
+                // belong to no message
+                if self.expect_send(packet_id, QoSPacket::PubRel).is_err() {
+                    return Ok(());
+                }
                 self.send_packet(packet).await?;
                 if let Some(p) = self.state.pending_qos_send.get_mut(&packet_id) {
                     p.next = QoSPacket::PubComp;
-- 
2.43.0

