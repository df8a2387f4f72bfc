From a37dbad3b89e293103331493234300aafc1c9f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:36 +0000
Subject: [PATCH 01/48] fix: reject PROXY headers with an unspecified family or
 protocol instead of panicking

---
 akasa-core/src/server/proxy.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/akasa-core/src/server/proxy.rs b/akasa-core/src/server/proxy.rs
index f204723..03b2817 100644
--- a/akasa-core/src/server/proxy.rs
+++ b/akasa-core/src/server/proxy.rs
@@ -123,8 +123,7 @@ pub async fn parse_header<T: AsyncRead + Unpin>(
     }
 
     let address_family = match byte_14th & LEFT_MASK {
-        // Unspecified
-        0x00 => unreachable!(),
+        // Unspecified (0x00) carries no usable address and is rejected below
         0x10 => AddressFamily::IPv4,
         0x20 => AddressFamily::IPv6,
         0x30 => AddressFamily::Unix,
@@ -151,8 +150,7 @@ pub async fn parse_header<T: AsyncRead + Unpin>(
     }
 
     let protocol = match byte_14th & RIGHT_MASK {
-        // Unspecified
-        0x00 => unreachable!(),
+        // Unspecified (0x00) is rejected below
         0x01 => Protocol::Stream,
         0x02 => Protocol::Datagram,
         _ => {
-- 
2.43.0


From 2c0ff0099f02dd4764acc286a54523c7d5909323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:57 +0000
Subject: [PATCH 02/48] fix: verify SCRAM proofs over the client-first message
 as sent (gs2 'y' flag, extensions)

---
 akasa-core/src/protocols/scram/server.rs | 45 +++++++++++++-----------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/akasa-core/src/protocols/scram/server.rs b/akasa-core/src/protocols/scram/server.rs
index f2ce68d..28e9fa8 100644
--- a/akasa-core/src/protocols/scram/server.rs
+++ b/akasa-core/src/protocols/scram/server.rs
@@ -1,5 +1,3 @@
-use std::borrow::Cow;
-
 use base64::Engine;
 use base64::engine::general_purpose::STANDARD;
 use rand::Rng;
@@ -25,11 +23,13 @@ pub enum ScramServer {
         authcid: String,
         authzid: Option<String>,
         client_nonce: String,
+        gs2header: String,
+        client_first_bare: String,
     },
     WaitingForClientFinal {
         hashed_password: Vec<u8>,
         nonce: String,
-        gs2header: Cow<'static, str>,
+        gs2header: String,
         client_first_bare: String,
         server_first: String,
         authcid: String,
@@ -53,7 +53,8 @@ impl ScramServer {
             _ => return Err(Error::Protocol(Kind::InvalidField(Field::ChannelBinding))),
         }
 
-        let authzid = match parts.next() {
+        let authzid_token = parts.next();
+        let authzid = match authzid_token {
             Some("") => None,
             Some(p) if p.as_bytes().starts_with(b"a=") => Some(p[2..].to_owned()),
             Some(_) => return Err(Error::Protocol(Kind::ExpectedField(Field::Authzid))),
@@ -63,10 +64,16 @@ impl ScramServer {
         let authcid = next_field(&mut parts, Field::Authcid, b"n=")?;
         let client_nonce = next_field(&mut parts, Field::Nonce, b"r=")?;
 
+        // The proof covers the client's messages as they were sent.
+        let gs2header_len = token.len() + authzid_token.unwrap_or("").len() + 2;
+        let (gs2header, client_first_bare) = data.split_at(gs2header_len);
+
         *self = ScramServer::WaitingForPassword {
             authcid,
             authzid,
             client_nonce,
+            gs2header: gs2header.to_owned(),
+            client_first_bare: client_first_bare.to_owned(),
         };
         Ok(())
     }
@@ -94,17 +101,20 @@ impl ScramServer {
         iterations: u16,
         rng: &mut R,
     ) -> Result<String, Error> {
-        let (authcid, authzid, client_nonce) = match std::mem::replace(self, ScramServer::Done) {
-            ScramServer::WaitingForPassword {
-                authcid,
-                authzid,
-                client_nonce,
-            } => (authcid, authzid, client_nonce),
-            other => {
-                *self = other;
-                return Err(Error::InvalidState);
-            }
-        };
+        let (authcid, authzid, client_nonce, gs2header, client_first_bare) =
+            match std::mem::replace(self, ScramServer::Done) {
+                ScramServer::WaitingForPassword {
+                    authcid,
+                    authzid,
+                    client_nonce,
+                    gs2header,
+                    client_first_bare,
+                } => (authcid, authzid, client_nonce, gs2header, client_first_bare),
+                other => {
+                    *self = other;
+                    return Err(Error::InvalidState);
+                }
+            };
 
         let mut nonce = String::with_capacity(client_nonce.len() + NONCE_LENGTH);
         nonce.push_str(&client_nonce);
@@ -116,11 +126,6 @@ impl ScramServer {
                 .take(NONCE_LENGTH),
         );
 
-        let gs2header: Cow<'static, str> = match &authzid {
-            Some(az) => format!("n,a={},", az).into(),
-            None => "n,,".into(),
-        };
-        let client_first_bare = format!("n={},r={}", authcid, client_nonce);
         let server_first = format!("r={},s={},i={}", nonce, STANDARD.encode(salt), iterations);
 
         *self = ScramServer::WaitingForClientFinal {
-- 
2.43.0


From 3315d4380d44282cd9dcc507d4e41537ec2bb0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:57 +0000
Subject: [PATCH 03/48] fix: escape and unescape ',' and '=' in SCRAM user
 names

---
 akasa-core/src/protocols/scram/client.rs | 18 +++++++++++-------
 akasa-core/src/protocols/scram/server.rs | 24 +++++++++++++++++++++++-
 2 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/akasa-core/src/protocols/scram/client.rs b/akasa-core/src/protocols/scram/client.rs
index 2cd6cad..9202163 100644
--- a/akasa-core/src/protocols/scram/client.rs
+++ b/akasa-core/src/protocols/scram/client.rs
@@ -42,7 +42,7 @@ impl<'a> ScramClient<'a> {
         rng: &mut R,
     ) -> Self {
         let gs2header: Cow<'static, str> = match authzid {
-            Some(az) => format!("n,a={},", az).into(),
+            Some(az) => format!("n,a={},", encode_saslname(az)).into(),
             None => "n,,".into(),
         };
         let nonce: String = Uniform::try_from(33..125)
@@ -74,12 +74,7 @@ impl<'a> ScramClient<'a> {
             }
         };
 
-        let escaped: Cow<'a, str> = if authcid.chars().any(|c| c == ',' || c == '=') {
-            authcid.into()
-        } else {
-            authcid.replace(',', "=2C").replace('=', "=3D").into()
-        };
-        let client_first_bare = format!("n={},r={}", escaped, nonce);
+        let client_first_bare = format!("n={},r={}", encode_saslname(authcid), nonce);
         let client_first = format!("{}{}", gs2header, client_first_bare);
 
         *self = ScramClient::WaitingForServerFirst {
@@ -149,6 +144,15 @@ impl<'a> ScramClient<'a> {
     }
 }
 
+/// saslname escaping of RFC 5802 section 5.1.
+fn encode_saslname(name: &str) -> Cow<'_, str> {
+    if name.contains([',', '=']) {
+        name.replace('=', "=3D").replace(',', "=2C").into()
+    } else {
+        name.into()
+    }
+}
+
 fn parse_server_first(data: &str) -> Result<(&str, Vec<u8>, NonZeroU32), Error> {
     if data.len() < 2 {
         return Err(Error::Protocol(Kind::ExpectedField(Field::Nonce)));
diff --git a/akasa-core/src/protocols/scram/server.rs b/akasa-core/src/protocols/scram/server.rs
index 28e9fa8..41a82e1 100644
--- a/akasa-core/src/protocols/scram/server.rs
+++ b/akasa-core/src/protocols/scram/server.rs
@@ -56,12 +56,15 @@ impl ScramServer {
         let authzid_token = parts.next();
         let authzid = match authzid_token {
             Some("") => None,
-            Some(p) if p.as_bytes().starts_with(b"a=") => Some(p[2..].to_owned()),
+            Some(p) if p.as_bytes().starts_with(b"a=") => {
+                Some(decode_saslname(&p[2..], Field::Authzid)?)
+            }
             Some(_) => return Err(Error::Protocol(Kind::ExpectedField(Field::Authzid))),
             None => return Err(Error::Protocol(Kind::ExpectedField(Field::Authzid))),
         };
 
         let authcid = next_field(&mut parts, Field::Authcid, b"n=")?;
+        let authcid = decode_saslname(&authcid, Field::Authcid)?;
         let client_nonce = next_field(&mut parts, Field::Nonce, b"r=")?;
 
         // The proof covers the client's messages as they were sent.
@@ -207,6 +210,25 @@ impl ScramServer {
     }
 }
 
+/// Undo the saslname escaping of RFC 5802 section 5.1: `=2C` is ',' and `=3D`
+/// is '='; any other use of '=' is an error.
+fn decode_saslname(name: &str, field: Field) -> Result<String, Error> {
+    let mut pieces = name.split('=');
+    let mut decoded = pieces.next().unwrap_or("").to_owned();
+    for piece in pieces {
+        if let Some(rest) = piece.strip_prefix("2C") {
+            decoded.push(',');
+            decoded.push_str(rest);
+        } else if let Some(rest) = piece.strip_prefix("3D") {
+            decoded.push('=');
+            decoded.push_str(rest);
+        } else {
+            return Err(Error::Protocol(Kind::InvalidField(field)));
+        }
+    }
+    Ok(decoded)
+}
+
 fn next_field(
     parts: &mut impl Iterator<Item = impl AsRef<str>>,
     field: Field,
-- 
2.43.0


From 527203b668c95a4b2dbf40595f921eb628138173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:57 +0000
Subject: [PATCH 04/48] fix: do not panic on a SCRAM server-final message
 starting with a multi-byte character

---
 akasa-core/src/protocols/scram/client.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/akasa-core/src/protocols/scram/client.rs b/akasa-core/src/protocols/scram/client.rs
index 9202163..6535e5f 100644
--- a/akasa-core/src/protocols/scram/client.rs
+++ b/akasa-core/src/protocols/scram/client.rs
@@ -184,11 +184,11 @@ fn parse_server_final(data: &str) -> Result<Vec<u8>, Error> {
     if data.len() < 2 {
         return Err(Error::Protocol(Kind::ExpectedField(Field::VerifyOrError)));
     }
-    match &data[..2] {
-        "v=" => STANDARD
+    match &data.as_bytes()[..2] {
+        b"v=" => STANDARD
             .decode(&data.as_bytes()[2..])
             .map_err(|_| Error::Protocol(Kind::InvalidField(Field::VerifyOrError))),
-        "e=" => Err(Error::Authentication(data[2..].to_string())),
+        b"e=" => Err(Error::Authentication(data[2..].to_string())),
         _ => Err(Error::Protocol(Kind::ExpectedField(Field::VerifyOrError))),
     }
 }
-- 
2.43.0


From 26cc9104dba3adf54d99732deb01fe56c71f1c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:20 +0000
Subject: [PATCH 05/48] verif: expose client registry types to the verification
 harness (cfg akasa_verif)

---
 akasa-core/src/lib.rs   | 10 ++++++++++
 akasa-core/src/state.rs |  2 +-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/akasa-core/src/lib.rs b/akasa-core/src/lib.rs
index 6e8a060..bc322a2 100644
--- a/akasa-core/src/lib.rs
+++ b/akasa-core/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 mod config;
 mod hook;
 pub mod protocols;
@@ -25,3 +27,11 @@ pub use crate::protocols::mqtt::{
 pub use crate::state::{AuthPassword, GlobalState, HashAlgorithm};
 
 pub use mqtt_proto;
+
+/// Private items that the external verification harness drives directly.
+#[cfg(akasa_verif)]
+pub mod verif {
+    pub use crate::state::{
+        AddClientReceipt, ClientId, ClientReceiver, ControlMessage, NormalMessage,
+    };
+}
diff --git a/akasa-core/src/state.rs b/akasa-core/src/state.rs
index 4ca668e..aed632f 100644
--- a/akasa-core/src/state.rs
+++ b/akasa-core/src/state.rs
@@ -274,7 +274,7 @@ impl fmt::Display for ClientId {
 }
 
 impl ClientId {
-    #[cfg(test)]
+    #[cfg(any(test, akasa_verif))]
     pub fn new(value: u64) -> ClientId {
         ClientId(value)
     }
-- 
2.43.0


From f88cf08653ba1cfc00a5a230c34b1eaf15c694b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:33 +0000
Subject: [PATCH 06/48] fix: forget a shared subscriber that leaves from the
 last position of its group

---
 akasa-core/src/protocols/mqtt/route.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/akasa-core/src/protocols/mqtt/route.rs b/akasa-core/src/protocols/mqtt/route.rs
index 5d722dc..5bccd91 100644
--- a/akasa-core/src/protocols/mqtt/route.rs
+++ b/akasa-core/src/protocols/mqtt/route.rs
@@ -272,7 +272,9 @@ impl SharedClients {
             } else {
                 let last_client_id = self.items.last().expect("shared items").0;
                 self.items.swap_remove(idx);
-                self.index.insert(last_client_id, idx);
+                if last_client_id != *item_key {
+                    self.index.insert(last_client_id, idx);
+                }
                 if self.items.capacity() >= 16 && self.items.capacity() >= (self.items.len() << 2) {
                     self.items.shrink_to(self.items.len() << 1);
                 }
-- 
2.43.0


From 4d65f3ddb580c73a23a518b5f1f53f9770d69800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:00 +0000
Subject: [PATCH 07/48] fix: forward a QoS 2 message whose first received copy
 carries the DUP flag

---
 akasa-core/src/protocols/mqtt/v3/packet/publish.rs | 5 ++++-
 akasa-core/src/protocols/mqtt/v5/packet/publish.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
index ffe2cd3..7104aef 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
@@ -47,6 +47,8 @@ topic name : {}
         return Err(io::ErrorKind::InvalidData.into());
     }
 
+    // The packet identifier is already in use by this very message.
+    let mut redelivered = false;
     if let QosPid::Level2(pid) = packet.qos_pid {
         let mut hasher = AHasher::default();
         packet.hash(&mut hasher);
@@ -65,13 +67,14 @@ topic name : {}
                 );
                 return Err(io::ErrorKind::InvalidData.into());
             }
+            redelivered = true;
         } else {
             // FIXME: check qos2_pids limit
             session.qos2_pids.insert(pid, current_hash);
         }
     }
 
-    if !(packet.dup && packet.qos_pid.qos() == QoS::Level2) {
+    if !redelivered {
         let encode_len = total_len(packet.encode_len()).expect("packet too large");
         send_publish(
             session,
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
index 4001400..9ad98bd 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
@@ -118,6 +118,8 @@ topic name : {}
         return Err(err_pkt);
     }
 
+    // The packet identifier is already in use by this very message.
+    let mut redelivered = false;
     if let QosPid::Level2(pid) = packet.qos_pid {
         let mut hasher = AHasher::default();
         packet.hash(&mut hasher);
@@ -147,6 +149,7 @@ topic name : {}
                 );
                 return Err(err_pkt);
             }
+            redelivered = true;
         } else if session.qos2_pids.len() >= global.config.max_inflight_server as usize {
             let err_pkt = build_error_disconnect(
                 session,
@@ -160,7 +163,7 @@ topic name : {}
         }
     }
 
-    let matched_len = if !(packet.dup && packet.qos_pid.qos() == QoS::Level2) {
+    let matched_len = if !redelivered {
         let encode_len = total_len(packet.encode_len()).expect("packet too large");
         let properties = &mut packet.properties;
         properties.topic_alias = None;
-- 
2.43.0


From 9e17b2c85eec16dc0d547346865ea6ca2a6d2d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:54 +0000
Subject: [PATCH 08/48] fix: do not release a QoS 2 message its receiver
 refused in PUBREC

---
 akasa-core/src/protocols/mqtt/v5/message.rs        |  2 +-
 akasa-core/src/protocols/mqtt/v5/packet/publish.rs | 13 +++++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index 4b0f540..2084e2b 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -475,7 +475,7 @@ impl OnlineSession for Session {
                 }
             }
             Packet::Puback(pkt) => handle_puback(self, pkt),
-            Packet::Pubrec(pkt) => write_packets.push_back(handle_pubrec(self, pkt).into()),
+            Packet::Pubrec(pkt) => write_packets.extend(handle_pubrec(self, pkt).map(Into::into)),
             Packet::Pubrel(pkt) => write_packets.push_back(handle_pubrel(self, pkt).into()),
             Packet::Pubcomp(pkt) => handle_pubcomp(self, pkt),
             Packet::Subscribe(pkt) => {
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
index 9ad98bd..1af77fc 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
@@ -224,23 +224,28 @@ pub(crate) fn handle_puback(session: &mut Session, packet: Puback) {
 }
 
 #[inline]
-pub(crate) fn handle_pubrec(session: &mut Session, packet: Pubrec) -> Packet {
+pub(crate) fn handle_pubrec(session: &mut Session, packet: Pubrec) -> Option<Packet> {
     log::debug!(
         "{} received a pubrec  packet: id={}",
         session.client_id,
         packet.pid.value()
     );
+    // [MQTT-4.3.3-4] a refused message is complete, and is not released
+    if packet.reason_code as u8 >= 0x80 {
+        session.pending_packets.complete(packet.pid, QoS::Level1);
+        return None;
+    }
     let reason_code = if session.pending_packets.pubrec(packet.pid) {
         PubrelReasonCode::Success
     } else {
         PubrelReasonCode::PacketIdentifierNotFound
     };
-    Pubrel {
+    let rv_packet = Pubrel {
         pid: packet.pid,
         reason_code,
         properties: PubrelProperties::default(),
-    }
-    .into()
+    };
+    Some(rv_packet.into())
 }
 
 #[inline]
-- 
2.43.0


From 9c32054ac955de158dd52b0eb743532a39927efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:09 +0000
Subject: [PATCH 09/48] fix: do not drop an expired message on reconnect when
 it is already in flight

---
 akasa-core/src/protocols/mqtt/v5/packet/common.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/akasa-core/src/protocols/mqtt/v5/packet/common.rs b/akasa-core/src/protocols/mqtt/v5/packet/common.rs
index d379405..e1496d0 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/common.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/common.rs
@@ -177,7 +177,8 @@ pub(crate) fn handle_pendings(session: &mut Session) -> Vec<Packet> {
                 let mut message_expiry_interval = None;
                 if let Some(value) = packet.properties.message_expiry_interval {
                     let passed_secs = now_ts - *added_at;
-                    if *last_sent == 0 && passed_secs >= value as u64 {
+                    // a message already sent is in flight and can't expire
+                    if !*dup && passed_secs >= value as u64 {
                         expired_packets.push(*pid);
                         continue;
                     }
-- 
2.43.0


From 6b772a79e67317e6c1e1f01972009e7161325467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:46 +0000
Subject: [PATCH 10/48] fix: clear the RETAIN flag of messages forwarded to
 established v3 subscriptions

---
 akasa-core/src/protocols/mqtt/v3/message.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index 25f49f4..f59eb1c 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -589,7 +589,7 @@ fn handle_normal(
         NormalMessage::PublishV3 {
             ref topic_name,
             qos,
-            retain,
+            retain: _,
             ref payload,
             ref subscribe_filter,
             subscribe_qos,
@@ -605,7 +605,8 @@ fn handle_normal(
                 RecvPublish {
                     topic_name,
                     qos,
-                    retain,
+                    // [MQTT-3.3.1-9]
+                    retain: false,
                     payload,
                     subscribe_filter,
                     subscribe_qos,
@@ -615,7 +616,7 @@ fn handle_normal(
         NormalMessage::PublishV5 {
             ref topic_name,
             qos,
-            retain,
+            retain: _,
             ref payload,
             ref subscribe_filters,
             subscribe_qos,
@@ -632,7 +633,8 @@ fn handle_normal(
                 RecvPublish {
                     topic_name,
                     qos,
-                    retain,
+                    // [MQTT-3.3.1-9]
+                    retain: false,
                     payload,
                     subscribe_filter: subscribe_filters.first()?,
                     subscribe_qos,
-- 
2.43.0


From b320e98662adad85263d8d31c642fae65181d848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:22 +0000
Subject: [PATCH 11/48] fix: send retained messages above the granted QoS to v3
 subscribers, downgraded

---
 .../src/protocols/mqtt/v3/packet/subscribe.rs | 24 +++++++++----------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs b/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
index 7e0bbae..6cd25d6 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
@@ -42,19 +42,17 @@ packet id : {}
 
         let mut process_pendings = false;
         for msg in global.retain_table.get_matches(filter) {
-            if msg.qos <= granted_qos
-                && let Some((final_qos, packet_opt)) = recv_publish(
-                    session,
-                    RecvPublish {
-                        topic_name: &msg.topic_name,
-                        qos: msg.qos,
-                        retain: true,
-                        payload: &msg.payload,
-                        subscribe_filter: filter,
-                        subscribe_qos: granted_qos,
-                    },
-                )
-            {
+            if let Some((final_qos, packet_opt)) = recv_publish(
+                session,
+                RecvPublish {
+                    topic_name: &msg.topic_name,
+                    qos: msg.qos,
+                    retain: true,
+                    payload: &msg.payload,
+                    subscribe_filter: filter,
+                    subscribe_qos: granted_qos,
+                },
+            ) {
                 if let Some(packet) = packet_opt {
                     rv_packets.push(packet);
                 }
-- 
2.43.0


From 44542590884409aeba485d5fc3425ae1cbabbc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:53 +0000
Subject: [PATCH 12/48] fix: count a client once when a new connection takes
 its session over

---
 akasa-core/src/state.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/akasa-core/src/state.rs b/akasa-core/src/state.rs
index aed632f..2158a9d 100644
--- a/akasa-core/src/state.rs
+++ b/akasa-core/src/state.rs
@@ -122,6 +122,17 @@ impl GlobalState {
         }
     }
 
+    // The session of the client been taken over by a new connection
+    fn resume_client(&self, client_id: ClientId) {
+        let _guard = self.next_client_id.lock();
+        if let Some(mut pair) = self.client_id_map.get_mut(&client_id)
+            && !pair.value().1
+        {
+            pair.value_mut().1 = true;
+            self.online_clients.fetch_add(1, Ordering::AcqRel);
+        }
+    }
+
     pub fn get_client_normal_sender(
         &self,
         client_id: &ClientId,
@@ -148,18 +159,15 @@ impl GlobalState {
     ) -> io::Result<AddClientReceipt> {
         let control_sender = {
             let mut next_client_id = self.next_client_id.lock();
-            self.online_clients.fetch_add(1, Ordering::AcqRel);
             let client_id_opt: Option<ClientId> = self
                 .client_identifier_map
                 .get(client_identifier)
                 .map(|pair| *pair.value());
             if let Some(old_id) = client_id_opt {
-                if let Some(mut pair) = self.client_id_map.get_mut(&old_id) {
-                    pair.value_mut().1 = true;
-                }
                 self.get_client_control_sender(&old_id).unwrap()
             } else {
                 let client_id = *next_client_id;
+                self.online_clients.fetch_add(1, Ordering::AcqRel);
                 self.client_id_map
                     .insert(client_id, (client_identifier.to_string(), true));
                 self.client_identifier_map
@@ -197,6 +205,7 @@ impl GlobalState {
                 log::warn!("receive session state error: {:?}", err);
                 io::Error::from(io::ErrorKind::InvalidData)
             })?;
+            self.resume_client(session_state.client_id);
             Ok(AddClientReceipt::PresentV3(session_state))
         } else {
             let (sender, receiver) = bounded(1);
@@ -211,6 +220,7 @@ impl GlobalState {
                 log::warn!("receive session state error: {:?}", err);
                 io::Error::from(io::ErrorKind::InvalidData)
             })?;
+            self.resume_client(session_state.client_id);
             Ok(AddClientReceipt::PresentV5(session_state))
         }
     }
-- 
2.43.0


From d5c2f987bbf704b9b1916f96e4e12ddc6159fff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:07 +0000
Subject: [PATCH 13/48] fix: do not leave a connection hanging when the session
 it takes over ends first

---
 akasa-core/src/state.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/akasa-core/src/state.rs b/akasa-core/src/state.rs
index 2158a9d..900cd56 100644
--- a/akasa-core/src/state.rs
+++ b/akasa-core/src/state.rs
@@ -201,6 +201,8 @@ impl GlobalState {
                 log::warn!("send online control message error: {:?}", err);
                 return Err(io::Error::from(io::ErrorKind::InvalidData));
             }
+            // Otherwise the request (and its sender) outlives a session that ended just now
+            drop(control_sender);
             let session_state = receiver.recv_async().await.map_err(|err| {
                 log::warn!("receive session state error: {:?}", err);
                 io::Error::from(io::ErrorKind::InvalidData)
@@ -216,6 +218,8 @@ impl GlobalState {
                 log::warn!("send online control message error: {:?}", err);
                 return Err(io::Error::from(io::ErrorKind::InvalidData));
             }
+            // Otherwise the request (and its sender) outlives a session that ended just now
+            drop(control_sender);
             let session_state = receiver.recv_async().await.map_err(|err| {
                 log::warn!("receive session state error: {:?}", err);
                 io::Error::from(io::ErrorKind::InvalidData)
-- 
2.43.0


From ceed00f68b34c409c577d90041bcf8bb9ba80926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:20 +0000
Subject: [PATCH 14/48] fix: drop the route table entries of a session that is
 not resumed

---
 akasa-core/src/protocols/mqtt/v3/packet/connect.rs | 3 +++
 akasa-core/src/protocols/mqtt/v5/packet/connect.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
index 12e2c00..8c87432 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
@@ -133,6 +133,9 @@ clean session : {}
                     old_state.protocol,
                     session.clean_session,
                 );
+                for filter in old_state.subscribes.keys() {
+                    global.route_table.unsubscribe(filter, session.client_id);
+                }
                 session_present = false;
             }
         }
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
index dc0e52d..92e01b6 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
@@ -247,6 +247,9 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
                     old_state.protocol,
                     session.clean_start,
                 );
+                for filter in old_state.subscribes.keys() {
+                    global.route_table.unsubscribe(filter, session.client_id);
+                }
                 session_present = false;
             }
         }
-- 
2.43.0


From c4f893ab4efccb58a5de8d86171bc6504a51bc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:21 +0000
Subject: [PATCH 15/48] fix: do not resume a session that was to end with the
 connection taken over

---
 akasa-core/src/protocols/mqtt/v3/message.rs        | 1 +
 akasa-core/src/protocols/mqtt/v3/packet/connect.rs | 6 +++++-
 akasa-core/src/protocols/mqtt/v3/session.rs        | 1 +
 akasa-core/src/protocols/mqtt/v5/message.rs        | 1 +
 akasa-core/src/protocols/mqtt/v5/packet/connect.rs | 6 +++++-
 akasa-core/src/protocols/mqtt/v5/session.rs        | 1 +
 6 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index f59eb1c..e120446 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -238,6 +238,7 @@ impl OnlineSession for Session {
             client_id: self.client_id,
             receiver,
             protocol: self.protocol,
+            clean_session: self.clean_session,
 
             server_packet_id: self.server_packet_id,
             pending_packets,
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
index 8c87432..21b6d74 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
@@ -118,7 +118,11 @@ clean session : {}
             session.client_id = old_state.client_id;
             *receiver = Some(old_state.receiver);
             // TODO: if protocol level is compatiable, copy the session state?
-            if !session.clean_session && session.protocol == old_state.protocol {
+            // A session which ends with its connection is over, even when taken over online.
+            if !session.clean_session
+                && !old_state.clean_session
+                && session.protocol == old_state.protocol
+            {
                 session.server_packet_id = old_state.server_packet_id;
                 session.pending_packets = old_state.pending_packets;
                 session.pending_packets.reset_last_sent();
diff --git a/akasa-core/src/protocols/mqtt/v3/session.rs b/akasa-core/src/protocols/mqtt/v3/session.rs
index f929877..804979e 100644
--- a/akasa-core/src/protocols/mqtt/v3/session.rs
+++ b/akasa-core/src/protocols/mqtt/v3/session.rs
@@ -43,6 +43,7 @@ pub struct SessionState {
     pub client_id: ClientId,
     pub protocol: Protocol,
     pub receiver: ClientReceiver,
+    pub clean_session: bool,
 
     // For record packet id send from server to client
     pub server_packet_id: Pid,
diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index 2084e2b..ae89939 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -362,6 +362,7 @@ impl OnlineSession for Session {
             client_id: self.client_id,
             receiver,
             protocol: self.protocol,
+            session_expiry_interval: self.session_expiry_interval,
 
             server_packet_id: self.server_packet_id,
             pending_packets,
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
index 92e01b6..0e1f40c 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
@@ -232,7 +232,11 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
             session.client_id = old_state.client_id;
             *receiver = Some(old_state.receiver);
             // TODO: if protocol level is compatiable, copy the session state?
-            if !session.clean_start && session.protocol == old_state.protocol {
+            // A session which ends with its connection is over, even when taken over online.
+            if !session.clean_start
+                && old_state.session_expiry_interval > 0
+                && session.protocol == old_state.protocol
+            {
                 session.server_packet_id = old_state.server_packet_id;
                 session.pending_packets = old_state.pending_packets;
                 session.pending_packets.reset_last_sent();
diff --git a/akasa-core/src/protocols/mqtt/v5/session.rs b/akasa-core/src/protocols/mqtt/v5/session.rs
index 41005cd..7fca05f 100644
--- a/akasa-core/src/protocols/mqtt/v5/session.rs
+++ b/akasa-core/src/protocols/mqtt/v5/session.rs
@@ -77,6 +77,7 @@ pub struct Session {
 pub struct SessionState {
     pub client_id: ClientId,
     pub receiver: ClientReceiver,
+    pub session_expiry_interval: u32,
     pub protocol: Protocol,
 
     // For record packet id send from server to client
-- 
2.43.0


From 2449d7d71a0e23a67e4de2464f30943459c181a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:34 +0000
Subject: [PATCH 16/48] fix: publish the will of a v5 client that disconnects
 with a reason other than normal

---
 akasa-core/src/protocols/mqtt/v5/message.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index ae89939..cae7185 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -311,10 +311,8 @@ async fn handle_online<
         session.client_disconnected,
         session.server_disconnected,
     );
-    // FIXME: check all place depend on session.disconnected
-    if !session.client_disconnected {
-        handle_will(&mut session, global).await?;
-    }
+    // The will is already dropped when the client disconnected normally
+    handle_will(&mut session, global).await?;
     broadcast_packets(&mut session).await;
     if session.session_expiry_interval == 0 {
         global.remove_client(session.client_id, session.subscribes.keys());
-- 
2.43.0


From f3a505d1dbdedd1ba97486c4798bbdedd6d988f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:32 +0000
Subject: [PATCH 17/48] fix: publish the will of a connection or session that a
 new connection replaces

---
 akasa-core/src/protocols/mqtt/v3/message.rs        |  5 +++--
 akasa-core/src/protocols/mqtt/v3/packet/connect.rs | 10 +++++++++-
 akasa-core/src/protocols/mqtt/v3/session.rs        |  2 ++
 akasa-core/src/protocols/mqtt/v5/message.rs        |  3 ++-
 akasa-core/src/protocols/mqtt/v5/packet/connect.rs | 12 +++++++++++-
 akasa-core/src/protocols/mqtt/v5/session.rs        |  2 ++
 6 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index e120446..a840088 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -180,7 +180,7 @@ async fn handle_online<
     // FIXME: check all place depend on session.disconnected
     if !session.disconnected {
         log::debug!("[{}] handling will...", session.client_id);
-        handle_will(&mut session, global).await?;
+        send_will(&mut session, global)?;
     }
     for (target_id, info) in session.broadcast_packets.drain() {
         for msg in info.msgs {
@@ -238,6 +238,7 @@ impl OnlineSession for Session {
             client_id: self.client_id,
             receiver,
             protocol: self.protocol,
+            last_will: self.last_will.take(),
             clean_session: self.clean_session,
 
             server_packet_id: self.server_packet_id,
@@ -506,7 +507,7 @@ async fn handle_offline(mut session: Session, receiver: ClientReceiver, global:
 }
 
 #[inline]
-async fn handle_will(session: &mut Session, global: &Arc<GlobalState>) -> io::Result<()> {
+pub(super) fn send_will(session: &mut Session, global: &Arc<GlobalState>) -> io::Result<()> {
     if let Some(last_will) = session.last_will.take() {
         let encode_len = {
             let qos_pid = match last_will.qos {
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
index 21b6d74..821ebc6 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
@@ -8,6 +8,7 @@ use mqtt_proto::{
 };
 use tokio::io::AsyncWrite;
 
+use crate::protocols::mqtt::v3::message::send_will;
 use crate::protocols::mqtt::{check_password, start_keep_alive_timer};
 use crate::state::{AddClientReceipt, ClientReceiver, GlobalState};
 
@@ -113,7 +114,8 @@ clean session : {}
         .add_client(&session.client_identifier, session.protocol)
         .await?
     {
-        AddClientReceipt::PresentV3(old_state) => {
+        AddClientReceipt::PresentV3(mut old_state) => {
+            let old_will = old_state.last_will.take();
             log::debug!("Got exists session for {}", old_state.client_id);
             session.client_id = old_state.client_id;
             *receiver = Some(old_state.receiver);
@@ -142,6 +144,12 @@ clean session : {}
                 }
                 session_present = false;
             }
+            // [MQTT-3.1.2-8] the old connection (or the old session) ends here
+            if let Some(last_will) = old_will {
+                let new_will = session.last_will.replace(last_will);
+                send_will(session, global)?;
+                session.last_will = new_will;
+            }
         }
         // not allowed, so this is dead branch.
         AddClientReceipt::PresentV5(_) => unreachable!(),
diff --git a/akasa-core/src/protocols/mqtt/v3/session.rs b/akasa-core/src/protocols/mqtt/v3/session.rs
index 804979e..6917054 100644
--- a/akasa-core/src/protocols/mqtt/v3/session.rs
+++ b/akasa-core/src/protocols/mqtt/v3/session.rs
@@ -43,6 +43,8 @@ pub struct SessionState {
     pub client_id: ClientId,
     pub protocol: Protocol,
     pub receiver: ClientReceiver,
+    // The will not yet published
+    pub last_will: Option<LastWill>,
     pub clean_session: bool,
 
     // For record packet id send from server to client
diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index cae7185..531214b 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -360,6 +360,7 @@ impl OnlineSession for Session {
             client_id: self.client_id,
             receiver,
             protocol: self.protocol,
+            last_will: self.last_will.take(),
             session_expiry_interval: self.session_expiry_interval,
 
             server_packet_id: self.server_packet_id,
@@ -891,7 +892,7 @@ fn handle_normal(
 
 // TODO: change to broadcast_will
 #[inline]
-fn send_will(session: &mut Session, global: &Arc<GlobalState>) -> io::Result<()> {
+pub(super) fn send_will(session: &mut Session, global: &Arc<GlobalState>) -> io::Result<()> {
     if let Some(last_will) = session.last_will.take() {
         log::debug!("[{}] send will", session.client_id);
         let properties = last_will.properties;
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
index 0e1f40c..0644a79 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
@@ -13,6 +13,7 @@ use mqtt_proto::{
 use tokio::io::AsyncWrite;
 
 use crate::config::SaslMechanism;
+use crate::protocols::mqtt::v5::message::send_will;
 use crate::protocols::mqtt::{check_password, start_keep_alive_timer};
 use crate::state::{AddClientReceipt, ClientReceiver, GlobalState};
 
@@ -227,7 +228,8 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
     {
         // not allowed, so this is dead branch.
         AddClientReceipt::PresentV3(_) => unreachable!(),
-        AddClientReceipt::PresentV5(old_state) => {
+        AddClientReceipt::PresentV5(mut old_state) => {
+            let old_will = old_state.last_will.take();
             log::debug!("Got exists session for {}", old_state.client_id);
             session.client_id = old_state.client_id;
             *receiver = Some(old_state.receiver);
@@ -256,6 +258,14 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
                 }
                 session_present = false;
             }
+            // [MQTT-3.1.2-8] the old connection (or the old session) ends here
+            if let Some(last_will) = old_will
+                && (!session_present || last_will.properties.delay_interval.unwrap_or(0) == 0)
+            {
+                let new_will = session.last_will.replace(last_will);
+                send_will(session, global)?;
+                session.last_will = new_will;
+            }
         }
         AddClientReceipt::New {
             client_id,
diff --git a/akasa-core/src/protocols/mqtt/v5/session.rs b/akasa-core/src/protocols/mqtt/v5/session.rs
index 7fca05f..080caa6 100644
--- a/akasa-core/src/protocols/mqtt/v5/session.rs
+++ b/akasa-core/src/protocols/mqtt/v5/session.rs
@@ -77,6 +77,8 @@ pub struct Session {
 pub struct SessionState {
     pub client_id: ClientId,
     pub receiver: ClientReceiver,
+    // The will not yet published
+    pub last_will: Option<LastWill>,
     pub session_expiry_interval: u32,
     pub protocol: Protocol,
 
-- 
2.43.0


From 382bcb5f87f6d9ae070930dc63de489a705efdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:37 +0000
Subject: [PATCH 18/48] fix: do not let the keep alive timer of a replaced
 connection kick the new one

---
 akasa-core/src/protocols/mqtt/common.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/common.rs b/akasa-core/src/protocols/mqtt/common.rs
index b1dc7e7..0df17dc 100644
--- a/akasa-core/src/protocols/mqtt/common.rs
+++ b/akasa-core/src/protocols/mqtt/common.rs
@@ -16,18 +16,17 @@ pub(crate) fn start_keep_alive_timer(
     if keep_alive > 0 {
         let half_interval = Duration::from_millis(keep_alive as u64 * 500);
         log::debug!("{} keep alive: {:?}", client_id, half_interval * 2);
-        let last_packet_time = Arc::clone(last_packet_time);
+        // Do not outlive the session this timer watches: a new connection of the same
+        // client has its own timer.
+        let last_packet_time = Arc::downgrade(last_packet_time);
         let global = Arc::clone(global);
         let action_gen = move || {
             // Need clone twice: https://stackoverflow.com/a/68462908/1274372
-            let last_packet_time = Arc::clone(&last_packet_time);
+            let last_packet_time = last_packet_time.upgrade();
             let global = Arc::clone(&global);
             async move {
-                {
-                    let last_packet_time = last_packet_time.read();
-                    if last_packet_time.elapsed() <= half_interval * 3 {
-                        return Some(half_interval);
-                    }
+                if last_packet_time?.read().elapsed() <= half_interval * 3 {
+                    return Some(half_interval);
                 }
                 // timeout, kick it out
                 if let Some(sender) = global.get_client_control_sender(&client_id) {
-- 
2.43.0


From 8497caa327bdd427208a26893240fa6ab6b156b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:00 +0000
Subject: [PATCH 19/48] fix: remove or keep offline a client whose connection
 fails right after it was registered

---
 akasa-core/src/protocols/mqtt/v3/message.rs   |  75 +++++++++----
 .../src/protocols/mqtt/v3/packet/connect.rs   |   4 +-
 akasa-core/src/protocols/mqtt/v5/message.rs   | 104 ++++++++++++------
 .../src/protocols/mqtt/v5/packet/connect.rs   |   2 +-
 4 files changed, 125 insertions(+), 60 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index a840088..ce9587e 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -94,22 +94,22 @@ pub async fn handle_connection<
     Ok(())
 }
 
+/// Connect the client and run its online loop, once `receiver` is set the client is registered.
 #[allow(clippy::too_many_arguments)]
-async fn handle_online<
+async fn handle_session<
     T: AsyncRead + AsyncWrite + Unpin,
     H: Hook + Clone + Send + Sync + 'static,
 >(
-    mut conn: T,
+    mut conn: &mut T,
     peer: SocketAddr,
-    _header: Header,
     protocol: Protocol,
     timeout_receiver: Receiver<()>,
     hook_handler: &H,
     global: &Arc<GlobalState>,
-) -> io::Result<Option<(Session, ClientReceiver)>> {
-    let mut session = Session::new(&global.config, peer);
-    let mut receiver = None;
-
+    session: &mut Session,
+    receiver: &mut Option<ClientReceiver>,
+    taken_over: &mut bool,
+) -> io::Result<Option<io::Error>> {
     let timeout = async {
         log::info!("connection timeout: {}", peer);
         let _ = timeout_receiver.recv_async().await;
@@ -132,8 +132,7 @@ async fn handle_online<
         before_connect_hook(peer, &packet, hook_handler, global).await?;
     }
 
-    let session_present =
-        handle_connect(&mut session, &mut receiver, packet, &mut conn, global).await?;
+    let session_present = handle_connect(session, receiver, packet, &mut conn, global).await?;
 
     if !session.connected {
         log::info!("{} not connected", session.peer);
@@ -142,14 +141,14 @@ async fn handle_online<
 
     // Run after connect hook
     if global.config.hook.enable_before_connect {
-        after_connect_hook(&mut session, session_present, hook_handler, global).await?;
+        after_connect_hook(session, session_present, hook_handler, global).await?;
     }
 
-    for packet in after_handle_packet(&mut session) {
+    for packet in after_handle_packet(session) {
         write_packet(session.client_id, &mut conn, &packet).await?;
     }
 
-    let receiver = receiver.expect("receiver");
+    let receiver = receiver.as_ref().expect("receiver");
     log::info!(
         "{} connected, total {} clients ({} online) ",
         session.peer,
@@ -157,30 +156,66 @@ async fn handle_online<
         global.online_clients_count(),
     );
 
-    let mut taken_over = false;
     let online_loop = OnlineLoop::new(
-        &mut session,
+        session,
         global,
         hook_handler,
-        &receiver,
+        receiver,
         receiver.control.stream(),
         receiver.normal.stream(),
         &mut conn,
-        &mut taken_over,
+        taken_over,
         PollPacketState::default(),
     );
     let io_error = online_loop.await;
     if global.config.hook.enable_after_disconnect {
-        after_disconnect_hook(&mut session, taken_over, hook_handler, global).await?;
+        after_disconnect_hook(session, *taken_over, hook_handler, global).await?;
     }
+    Ok(io_error)
+}
+
+#[allow(clippy::too_many_arguments)]
+async fn handle_online<
+    T: AsyncRead + AsyncWrite + Unpin,
+    H: Hook + Clone + Send + Sync + 'static,
+>(
+    mut conn: T,
+    peer: SocketAddr,
+    _header: Header,
+    protocol: Protocol,
+    timeout_receiver: Receiver<()>,
+    hook_handler: &H,
+    global: &Arc<GlobalState>,
+) -> io::Result<Option<(Session, ClientReceiver)>> {
+    let mut session = Session::new(&global.config, peer);
+    let mut receiver = None;
+    let mut taken_over = false;
+    let result = handle_session(
+        &mut conn,
+        peer,
+        protocol,
+        timeout_receiver,
+        hook_handler,
+        global,
+        &mut session,
+        &mut receiver,
+        &mut taken_over,
+    )
+    .await;
+    // Whatever happened, a registered client must be removed or become offline.
+    let Some(receiver) = receiver else {
+        return result.map(|_| None);
+    };
     if taken_over {
-        return Ok(None);
+        return result.map(|_| None);
     }
 
     // FIXME: check all place depend on session.disconnected
     if !session.disconnected {
         log::debug!("[{}] handling will...", session.client_id);
-        send_will(&mut session, global)?;
+        if send_will(&mut session, global).is_err() {
+            log::warn!("send will failed (packet too large)");
+        }
     }
     for (target_id, info) in session.broadcast_packets.drain() {
         for msg in info.msgs {
@@ -201,7 +236,7 @@ async fn handle_online<
     }
     if session.clean_session {
         global.remove_client(session.client_id, session.subscribes.keys());
-        if let Some(err) = io_error {
+        if let Some(err) = result? {
             return Err(err);
         }
     } else {
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
index 821ebc6..648f9a1 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
@@ -163,8 +163,7 @@ clean session : {}
         }
     }
 
-    // FIXME: early return after add_client will cause memory leak
-
+    session.connected_time = Some(Instant::now());
     start_keep_alive_timer(
         session.keep_alive,
         session.client_id,
@@ -177,7 +176,6 @@ clean session : {}
     let rv_packet = Connack::new(session_present, return_code);
     write_packet(session.client_id, conn, &rv_packet.into()).await?;
     session.connected = true;
-    session.connected_time = Some(Instant::now());
     Ok(session_present)
 }
 
diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index 531214b..5b1551e 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -118,22 +118,23 @@ pub async fn handle_connection<
     Ok(())
 }
 
+/// Connect the client and run its online loop, once `receiver` is set the client is registered.
 #[allow(clippy::too_many_arguments)]
-async fn handle_online<
+async fn handle_session<
     T: AsyncRead + AsyncWrite + Unpin,
     H: Hook + Clone + Send + Sync + 'static,
 >(
-    mut conn: T,
+    mut conn: &mut T,
     peer: SocketAddr,
     header: Header,
     protocol: Protocol,
     timeout_receiver: Receiver<()>,
     hook_handler: &H,
     global: &Arc<GlobalState>,
-) -> io::Result<Option<(Session, ClientReceiver)>> {
-    let mut session = Session::new(&global.config, peer);
-    let mut receiver = None;
-
+    session: &mut Session,
+    receiver: &mut Option<ClientReceiver>,
+    taken_over: &mut bool,
+) -> io::Result<Option<io::Error>> {
     let timeout = async {
         let _ = timeout_receiver.recv_async().await;
         log::info!("timeout when decode connect packet: {}", peer);
@@ -149,7 +150,7 @@ async fn handle_online<
                 ErrorV5::Common(Error::IoError(kind)) => Err(Error::IoError(kind).into()),
                 ErrorV5::Common(err) => {
                     let err_pkt = build_error_connack(
-                        &mut session,
+                        session,
                         false,
                         ConnectReasonCode::MalformedPacket,
                         err.to_string(),
@@ -159,7 +160,7 @@ async fn handle_online<
                 }
                 err => {
                     let err_pkt = build_error_connack(
-                        &mut session,
+                        session,
                         false,
                         ConnectReasonCode::MalformedPacket,
                         err.to_string(),
@@ -173,11 +174,10 @@ async fn handle_online<
 
     // Run before connect hook
     if global.config.hook.enable_before_connect {
-        before_connect_hook(&mut session, &mut conn, peer, &packet, hook_handler, global).await?;
+        before_connect_hook(session, &mut conn, peer, &packet, hook_handler, global).await?;
     }
 
-    let mut session_present =
-        handle_connect(&mut session, &mut receiver, packet, &mut conn, global).await?;
+    let mut session_present = handle_connect(session, receiver, packet, &mut conn, global).await?;
 
     // * Scram challenge only need 1 round.
     // * Kerberos challenge need 2 rounds.
@@ -192,7 +192,7 @@ async fn handle_online<
                     ErrorV5::Common(Error::IoError(kind)) => Err(Error::IoError(kind).into()),
                     ErrorV5::Common(err) => {
                         let err_pkt = build_error_connack(
-                            &mut session,
+                            session,
                             false,
                             ConnectReasonCode::MalformedPacket,
                             err.to_string(),
@@ -202,7 +202,7 @@ async fn handle_online<
                     }
                     err => {
                         let err_pkt = build_error_connack(
-                            &mut session,
+                            session,
                             false,
                             ConnectReasonCode::MalformedPacket,
                             err.to_string(),
@@ -224,22 +224,17 @@ async fn handle_online<
             _ => {
                 log::info!("Not connected, only AUTH packet is allowed");
                 let err_pkt =
-                    build_error_connack(&mut session, false, ConnectReasonCode::ProtocolError, "");
+                    build_error_connack(session, false, ConnectReasonCode::ProtocolError, "");
                 write_packet(session.client_id, &mut conn, &err_pkt).await?;
-                return Ok(None);
+                return Err(io::ErrorKind::InvalidData.into());
             }
         };
 
-        match handle_auth(&mut session, auth, global) {
+        match handle_auth(session, auth, global) {
             Ok((AuthReasonCode::Success, server_final)) => {
-                session_present = session_connect(
-                    &mut session,
-                    &mut receiver,
-                    Some(server_final),
-                    &mut conn,
-                    global,
-                )
-                .await?;
+                session_present =
+                    session_connect(session, receiver, Some(server_final), &mut conn, global)
+                        .await?;
             }
             Ok((AuthReasonCode::ContinueAuthentication, server_first)) => {
                 let auth_method = session.auth_method.as_ref().expect("auth method");
@@ -257,7 +252,7 @@ async fn handle_online<
             Ok((AuthReasonCode::ReAuthentication, _)) => unreachable!(),
             Err(err_pkt) => {
                 write_packet(session.client_id, &mut conn, &err_pkt).await?;
-                return Ok(None);
+                return Err(io::ErrorKind::InvalidData.into());
             }
         }
     }
@@ -270,14 +265,14 @@ async fn handle_online<
 
     // Run after connect hook
     if global.config.hook.enable_before_connect {
-        after_connect_hook(&mut session, session_present, hook_handler, global).await?;
+        after_connect_hook(session, session_present, hook_handler, global).await?;
     }
 
-    for packet in after_handle_packet(&mut session) {
+    for packet in after_handle_packet(session) {
         write_packet(session.client_id, &mut conn, &packet).await?;
     }
 
-    let receiver = receiver.expect("receiver");
+    let receiver = receiver.as_ref().expect("receiver");
     log::info!(
         "{} connected, total {} clients ({} online) ",
         session.peer,
@@ -285,24 +280,59 @@ async fn handle_online<
         global.online_clients_count(),
     );
 
-    let mut taken_over = false;
     let online_loop = OnlineLoop::new(
-        &mut session,
+        session,
         global,
         hook_handler,
-        &receiver,
+        receiver,
         receiver.control.stream(),
         receiver.normal.stream(),
         &mut conn,
-        &mut taken_over,
+        taken_over,
         PollPacketState::default(),
     );
     let io_error = online_loop.await;
     if global.config.hook.enable_after_disconnect {
-        after_disconnect_hook(&mut session, taken_over, hook_handler, global).await?;
+        after_disconnect_hook(session, *taken_over, hook_handler, global).await?;
     }
+    Ok(io_error)
+}
+
+#[allow(clippy::too_many_arguments)]
+async fn handle_online<
+    T: AsyncRead + AsyncWrite + Unpin,
+    H: Hook + Clone + Send + Sync + 'static,
+>(
+    mut conn: T,
+    peer: SocketAddr,
+    header: Header,
+    protocol: Protocol,
+    timeout_receiver: Receiver<()>,
+    hook_handler: &H,
+    global: &Arc<GlobalState>,
+) -> io::Result<Option<(Session, ClientReceiver)>> {
+    let mut session = Session::new(&global.config, peer);
+    let mut receiver = None;
+    let mut taken_over = false;
+    let result = handle_session(
+        &mut conn,
+        peer,
+        header,
+        protocol,
+        timeout_receiver,
+        hook_handler,
+        global,
+        &mut session,
+        &mut receiver,
+        &mut taken_over,
+    )
+    .await;
+    // Whatever happened, a registered client must be removed or become offline.
+    let Some(receiver) = receiver else {
+        return result.map(|_| None);
+    };
     if taken_over {
-        return Ok(None);
+        return result.map(|_| None);
     }
 
     log::debug!(
@@ -312,11 +342,13 @@ async fn handle_online<
         session.server_disconnected,
     );
     // The will is already dropped when the client disconnected normally
-    handle_will(&mut session, global).await?;
+    if handle_will(&mut session, global).await.is_err() {
+        log::warn!("send will failed (packet too large)");
+    }
     broadcast_packets(&mut session).await;
     if session.session_expiry_interval == 0 {
         global.remove_client(session.client_id, session.subscribes.keys());
-        if let Some(err) = io_error {
+        if let Some(err) = result? {
             return Err(err);
         }
     } else {
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
index 0644a79..332bfe1 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
@@ -277,6 +277,7 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
         }
     }
 
+    session.connected_time = Some(Instant::now());
     session
         .pending_packets
         .set_max_inflight(session.receive_max);
@@ -356,7 +357,6 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
 
     if reason_code == ConnectReasonCode::Success {
         session.connected = true;
-        session.connected_time = Some(Instant::now());
     }
     Ok(session_present)
 }
-- 
2.43.0


From d5665db0e0727d62f5163e2bcee27e164dba3f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:53 +0000
Subject: [PATCH 20/48] fix: refuse a v5 CONNECT with an unsupported will
 before touching the session

---
 .../src/protocols/mqtt/v5/packet/connect.rs   | 35 +++++++++++--------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
index 332bfe1..80ae5b5 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
@@ -221,6 +221,24 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
     conn: &mut T,
     global: &Arc<GlobalState>,
 ) -> io::Result<bool> {
+    let reason_code = if let Some(will) = session.last_will.as_ref() {
+        if will.retain && !global.config.retain_available {
+            ConnectReasonCode::RetainNotSupported
+        } else if will.qos > global.config.max_allowed_qos() {
+            ConnectReasonCode::QoSNotSupported
+        } else {
+            ConnectReasonCode::Success
+        }
+    } else {
+        ConnectReasonCode::Success
+    };
+    if reason_code != ConnectReasonCode::Success {
+        // A refused connection must not touch the session
+        let err_pkt = build_error_connack(session, false, reason_code, "");
+        write_packet(session.client_id, conn, &err_pkt).await?;
+        return Ok(false);
+    }
+
     let mut session_present = false;
     match global
         .add_client(&session.client_identifier, session.protocol)
@@ -337,27 +355,14 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
     }
     // * TODO ServerReference
 
-    let reason_code = if let Some(will) = session.last_will.as_ref() {
-        if will.retain && !global.config.retain_available {
-            ConnectReasonCode::RetainNotSupported
-        } else if will.qos > global.config.max_allowed_qos() {
-            ConnectReasonCode::QoSNotSupported
-        } else {
-            ConnectReasonCode::Success
-        }
-    } else {
-        ConnectReasonCode::Success
-    };
     let rv_packet = Connack {
         session_present,
-        reason_code,
+        reason_code: ConnectReasonCode::Success,
         properties: connack_properties,
     };
     write_packet(session.client_id, conn, &rv_packet.into()).await?;
 
-    if reason_code == ConnectReasonCode::Success {
-        session.connected = true;
-    }
+    session.connected = true;
     Ok(session_present)
 }
 
-- 
2.43.0


From 9cdf8ab63cf0b144370ea851dce92e6134bd59fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:12 +0000
Subject: [PATCH 21/48] fix: do not stall output after a partial write or a
 pending flush

---
 akasa-core/src/protocols/mqtt/online_loop.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/online_loop.rs b/akasa-core/src/protocols/mqtt/online_loop.rs
index 2268279..46fa97d 100644
--- a/akasa-core/src/protocols/mqtt/online_loop.rs
+++ b/akasa-core/src/protocols/mqtt/online_loop.rs
@@ -51,6 +51,7 @@ where
     session_state_sender: Option<(SendSink<'static, S::SessionState>, bool)>,
     write_packets_max: usize,
     write_packets: VecDeque<WritePacket<S::Packet>>,
+    flush_unfinish: bool,
     draining: Option<Disconnected>,
     drain_sleep: Option<Pin<Box<tokio::time::Sleep>>>,
 }
@@ -89,6 +90,7 @@ where
             write_packets: VecDeque::with_capacity(16),
             session_state_sender: None,
             hook_fut: None,
+            flush_unfinish: false,
             draining: None,
             drain_sleep: None,
         }
@@ -137,6 +139,7 @@ where
             hook_fut,
             write_packets_max,
             write_packets,
+            flush_unfinish,
             taken_over,
             draining,
             drain_sleep,
@@ -423,14 +426,18 @@ where
             }
 
             match Pin::new(&mut *conn).poll_write(cx, &data_all[data_idx..]) {
+                Poll::Ready(Ok(0)) => {
+                    return Poll::Ready(Some(io::ErrorKind::WriteZero.into()));
+                }
                 Poll::Ready(Ok(size)) => {
                     log::trace!("[{}] write {} bytes data", current_client_id, size);
                     have_write = true;
                     data_idx += size;
+                    // Write the rest until the connection is pending, so that
+                    // we are woken up when it can be written.
                     if data_idx < data_all.len() {
                         write_packets
                             .push_front(WritePacket::Data((VarBytes::Dynamic(data_all), data_idx)));
-                        break;
                     }
                 }
                 Poll::Ready(Err(err)) => return Poll::Ready(Some(err)),
@@ -449,9 +456,12 @@ where
         {
             write_packets.shrink_to(*write_packets_max);
         }
-        if have_write && !pendings.write {
+        if have_write {
+            *flush_unfinish = true;
+        }
+        if *flush_unfinish && !pendings.write {
             match Pin::new(&mut *conn).poll_flush(cx) {
-                Poll::Ready(Ok(())) => {}
+                Poll::Ready(Ok(())) => *flush_unfinish = false,
                 Poll::Ready(Err(err)) => return Poll::Ready(Some(err)),
                 Poll::Pending => {}
             }
@@ -593,6 +603,9 @@ where
                     }
                 }
                 match Pin::new(&mut *conn).poll_write(cx, &data_all[data_idx..]) {
+                    Poll::Ready(Ok(0)) => {
+                        return Poll::Ready(Some(io::ErrorKind::WriteZero.into()));
+                    }
                     Poll::Ready(Ok(size)) => {
                         data_idx += size;
                         if data_idx < data_all.len() {
-- 
2.43.0


From 1a4c20170c02331f28a035f14f55361a14b612a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:53 +0000
Subject: [PATCH 22/48] fix: keep pending broadcasts when a session is taken
 over

---
 akasa-core/src/protocols/mqtt/v3/packet/connect.rs | 3 +++
 akasa-core/src/protocols/mqtt/v5/packet/connect.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
index 648f9a1..d646590 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
@@ -119,6 +119,9 @@ clean session : {}
             log::debug!("Got exists session for {}", old_state.client_id);
             session.client_id = old_state.client_id;
             *receiver = Some(old_state.receiver);
+            // What the old connection still had to broadcast is not part of the session state.
+            session.broadcast_packets = old_state.broadcast_packets;
+            session.broadcast_packets_cnt = old_state.broadcast_packets_cnt;
             // TODO: if protocol level is compatiable, copy the session state?
             // A session which ends with its connection is over, even when taken over online.
             if !session.clean_session
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
index 80ae5b5..ed350ed 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
@@ -251,6 +251,9 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
             log::debug!("Got exists session for {}", old_state.client_id);
             session.client_id = old_state.client_id;
             *receiver = Some(old_state.receiver);
+            // What the old connection still had to broadcast is not part of the session state.
+            session.broadcast_packets = old_state.broadcast_packets;
+            session.broadcast_packets_cnt = old_state.broadcast_packets_cnt;
             // TODO: if protocol level is compatiable, copy the session state?
             // A session which ends with its connection is over, even when taken over online.
             if !session.clean_start
-- 
2.43.0


From c51c6c6ff29718b1a37455fb442fcc4d4c18114f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:03 +0000
Subject: [PATCH 23/48] fix: never send a v5 client a packet above its maximum
 packet size

---
 akasa-core/src/protocols/mqtt/v5/message.rs   |  7 +-
 .../src/protocols/mqtt/v5/packet/common.rs    | 77 ++++++++++++++-----
 .../src/protocols/mqtt/v5/packet/publish.rs   | 45 ++++-------
 .../src/protocols/mqtt/v5/packet/subscribe.rs |  7 --
 4 files changed, 72 insertions(+), 64 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index 5b1551e..15f8f2c 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -839,7 +839,7 @@ fn handle_normal(
             ref payload,
             ref subscribe_filter,
             subscribe_qos,
-            encode_len,
+            encode_len: _,
         } => {
             log::debug!(
                 "[{}] received v3 publish message from {}",
@@ -860,8 +860,6 @@ fn handle_normal(
                         subscription_ids: SubscriptionIds::Lookup(subscribe_filter),
                         subscribe_qos,
                         properties: None,
-                        // one byte is for property length
-                        encode_len: encode_len + 1,
                     },
                 )
             } else {
@@ -876,7 +874,7 @@ fn handle_normal(
             ref subscribe_filters,
             subscribe_qos,
             ref properties,
-            encode_len,
+            encode_len: _,
         } => {
             log::debug!(
                 "[{}] received v5 publish message from {}, msg: {:?}",
@@ -914,7 +912,6 @@ fn handle_normal(
                         subscription_ids: SubscriptionIds::Precomputed(subscription_ids),
                         subscribe_qos,
                         properties: Some(properties),
-                        encode_len,
                     },
                 )
             }
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/common.rs b/akasa-core/src/protocols/mqtt/v5/packet/common.rs
index e1496d0..06d522c 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/common.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/common.rs
@@ -5,7 +5,7 @@ use std::time::Instant;
 
 use hashbrown::HashMap;
 use mqtt_proto::{
-    QoS, QosPid, TopicName,
+    Encodable, QoS, QosPid, TopicName, total_len,
     v5::{
         Connack, ConnackProperties, ConnectReasonCode, Disconnect, DisconnectProperties,
         DisconnectReasonCode, ErrorV5, Packet, Publish, Pubrel, PubrelProperties, PubrelReasonCode,
@@ -20,7 +20,7 @@ use super::Session;
 
 static EMPTY_TOPIC_NAME: std::sync::OnceLock<TopicName> = std::sync::OnceLock::new();
 
-pub(super) fn empty_topic_name() -> &'static TopicName {
+fn empty_topic_name() -> &'static TopicName {
     EMPTY_TOPIC_NAME.get_or_init(|| TopicName::try_from("").expect("empty topic name is valid"))
 }
 
@@ -106,7 +106,7 @@ pub(crate) fn build_error_disconnect<'a, R: Into<Cow<'a, str>>>(
     rv_packet
 }
 
-pub(super) fn get_or_assign_server_topic_alias(
+fn get_or_assign_server_topic_alias(
     topic_alias_max: u16,
     aliases_by_topic: &mut HashMap<TopicName, u16>,
     aliases_by_alias: &mut HashMap<u16, (TopicName, u64)>,
@@ -148,9 +148,45 @@ pub(super) fn get_or_assign_server_topic_alias(
     (alias, true)
 }
 
+/// Whether the client accepts a packet of this size.
+pub(super) fn is_accepted(publish: &Publish, max_packet_size: u32) -> bool {
+    total_len(publish.encode_len()).is_ok_and(|len| len <= max_packet_size as usize)
+}
+
+/// Use a topic alias, unless there is none or it makes the packet too large.
+pub(super) fn use_topic_alias(
+    publish: &mut Publish,
+    topic_alias_max: u16,
+    max_packet_size: u32,
+    aliases_by_topic: &mut HashMap<TopicName, u16>,
+    aliases_by_alias: &mut HashMap<u16, (TopicName, u64)>,
+    tick: &mut u64,
+) {
+    if topic_alias_max == 0 {
+        return;
+    }
+    publish.properties.topic_alias = Some(topic_alias_max);
+    if !is_accepted(publish, max_packet_size) {
+        publish.properties.topic_alias = None;
+        return;
+    }
+    let (alias, is_new_mapping) = get_or_assign_server_topic_alias(
+        topic_alias_max,
+        aliases_by_topic,
+        aliases_by_alias,
+        tick,
+        &publish.topic_name,
+    );
+    publish.properties.topic_alias = Some(alias);
+    if !is_new_mapping {
+        publish.topic_name = empty_topic_name().clone();
+    }
+}
+
 #[inline]
 pub(crate) fn handle_pendings(session: &mut Session) -> Vec<Packet> {
     let topic_alias_max = session.topic_alias_max;
+    let max_packet_size = session.max_packet_size;
     let (pending_packets, aliases_by_topic, aliases_by_alias, tick) = (
         &mut session.pending_packets,
         &mut session.server_topic_aliases_by_topic,
@@ -190,31 +226,30 @@ pub(crate) fn handle_pendings(session: &mut Session) -> Vec<Packet> {
                     QoS::Level2 => QosPid::Level2(*pid),
                 };
                 let mut properties = packet.properties.clone();
-                let mut topic_name = packet.topic_name.clone();
                 properties.message_expiry_interval = message_expiry_interval;
-                if !*dup && topic_alias_max > 0 {
-                    let (alias, is_new_mapping) = get_or_assign_server_topic_alias(
-                        topic_alias_max,
-                        aliases_by_topic,
-                        aliases_by_alias,
-                        tick,
-                        &topic_name,
-                    );
-                    if alias > 0 {
-                        properties.topic_alias = Some(alias);
-                        if !is_new_mapping {
-                            topic_name = empty_topic_name().clone();
-                        }
-                    }
-                }
-                let rv_packet = Publish {
+                let mut rv_packet = Publish {
                     dup: *dup,
                     retain: packet.retain,
                     qos_pid,
-                    topic_name,
+                    topic_name: packet.topic_name.clone(),
                     payload: packet.payload.clone(),
                     properties,
                 };
+                if !is_accepted(&rv_packet, max_packet_size) {
+                    // [MQTT-3.1.2-25] discarded as if it was sent and acknowledged
+                    expired_packets.push(*pid);
+                    continue;
+                }
+                if !*dup {
+                    use_topic_alias(
+                        &mut rv_packet,
+                        topic_alias_max,
+                        max_packet_size,
+                        aliases_by_topic,
+                        aliases_by_alias,
+                        tick,
+                    );
+                }
                 *dup = true;
                 *last_sent = now_ts;
                 packets.push(rv_packet.into());
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
index 1af77fc..7ef5de1 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
@@ -19,7 +19,7 @@ use crate::config::SharedSubscriptionMode;
 use crate::protocols::mqtt::{BroadcastPackets, RetainContent};
 use crate::state::{GlobalState, NormalMessage};
 
-use super::common::{build_error_disconnect, empty_topic_name, get_or_assign_server_topic_alias};
+use super::common::{build_error_disconnect, is_accepted, use_topic_alias};
 use super::{PubPacket, Session};
 
 #[inline]
@@ -299,7 +299,6 @@ pub(crate) struct RecvPublish<'a> {
     pub subscription_ids: SubscriptionIds<'a>,
     // [MQTTv5.0-3.8.4] keyword: downgraded
     pub subscribe_qos: QoS,
-    pub encode_len: usize,
 }
 
 #[derive(Debug)]
@@ -461,9 +460,6 @@ pub(crate) fn recv_publish(
 
     let final_qos = cmp::min(msg.qos, msg.subscribe_qos);
     if final_qos != QoS::Level0 {
-        if msg.encode_len > session.max_packet_size as usize {
-            return None;
-        }
         let pid = session.incr_server_packet_id();
         session.pending_packets.clean_complete();
         // TODO: proper handle this error
@@ -479,38 +475,25 @@ pub(crate) fn recv_publish(
         );
         Some((final_qos, None))
     } else if !session.client_disconnected && !session.server_disconnected {
-        let encode_len = if msg.qos > QoS::Level0 {
-            msg.encode_len - 2
-        } else {
-            msg.encode_len
-        };
-        if encode_len > session.max_packet_size as usize {
-            return None;
-        }
-        let mut topic_name = msg.topic_name.clone();
-        if session.topic_alias_max > 0 {
-            let (alias, is_new_mapping) = get_or_assign_server_topic_alias(
-                session.topic_alias_max,
-                &mut session.server_topic_aliases_by_topic,
-                &mut session.server_topic_aliases_by_alias,
-                &mut session.server_alias_tick,
-                &topic_name,
-            );
-            if alias > 0 {
-                properties.topic_alias = Some(alias);
-                if !is_new_mapping {
-                    topic_name = empty_topic_name().clone();
-                }
-            }
-        }
-        let rv_packet = Publish {
+        let mut rv_packet = Publish {
             dup: false,
             qos_pid: QosPid::Level0,
             retain: msg.retain,
-            topic_name,
+            topic_name: msg.topic_name.clone(),
             payload: msg.payload.clone(),
             properties,
         };
+        if !is_accepted(&rv_packet, session.max_packet_size) {
+            return None;
+        }
+        use_topic_alias(
+            &mut rv_packet,
+            session.topic_alias_max,
+            session.max_packet_size,
+            &mut session.server_topic_aliases_by_topic,
+            &mut session.server_topic_aliases_by_alias,
+            &mut session.server_alias_tick,
+        );
         Some((final_qos, Some(rv_packet.into())))
     } else {
         None
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs b/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs
index cc6956d..ac1d8cc 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs
@@ -87,12 +87,6 @@ packet id : {}
                         if sub_opts.no_local && msg.client_identifier == session.client_identifier {
                             continue;
                         }
-                        let encode_len = if msg.properties.is_none() {
-                            // one byte for property length
-                            msg.encode_len + 1
-                        } else {
-                            msg.encode_len
-                        };
                         let retain = sub_opts.retain_as_published;
                         if let Some((final_qos, packet_opt)) = recv_publish(
                             session,
@@ -104,7 +98,6 @@ packet id : {}
                                 subscription_ids: SubscriptionIds::Lookup(filter),
                                 subscribe_qos: granted_qos,
                                 properties: msg.properties.as_ref(),
-                                encode_len,
                             },
                         ) {
                             if let Some(packet) = packet_opt {
-- 
2.43.0


From c4ade7192b88091629d0a5f5528b961ff913b3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:39 +0000
Subject: [PATCH 24/48] fix: refuse v5 messages above the announced maximum QoS

---
 akasa-core/src/protocols/mqtt/v5/packet/publish.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
index 7ef5de1..20ca4d7 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
@@ -64,6 +64,15 @@ topic name : {}
         return Err(err_pkt);
     }
 
+    if packet.qos_pid.qos() > global.config.max_allowed_qos() {
+        let err_pkt = build_error_disconnect(
+            session,
+            DisconnectReasonCode::QoSNotSupported,
+            "qos not supported",
+        );
+        return Err(err_pkt);
+    }
+
     let properties = &mut packet.properties;
     let mut topic_name = packet.topic_name.clone();
     if let Some(alias) = properties.topic_alias {
-- 
2.43.0


From c516ca6acc467e42ecfe6b5c196c83fd1aed73d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:56 +0000
Subject: [PATCH 25/48] fix: limit the session expiry a client asks for in
 DISCONNECT

---
 akasa-core/src/protocols/mqtt/v5/message.rs        | 2 +-
 akasa-core/src/protocols/mqtt/v5/packet/connect.rs | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index 15f8f2c..6724d0c 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -481,7 +481,7 @@ impl OnlineSession for Session {
 
         match packet {
             Packet::Disconnect(pkt) => {
-                if let Err(err_pkt) = handle_disconnect(self, pkt) {
+                if let Err(err_pkt) = handle_disconnect(self, pkt, global) {
                     // FIXME: must ensure error packet finally written to client in several seconds.
                     write_packets.push_back(err_pkt.into());
                 }
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
index ed350ed..1e9ed0d 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
@@ -371,7 +371,11 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
 
 #[inline]
 #[allow(clippy::result_large_err)]
-pub(crate) fn handle_disconnect(session: &mut Session, packet: Disconnect) -> Result<(), Packet> {
+pub(crate) fn handle_disconnect(
+    session: &mut Session,
+    packet: Disconnect,
+    global: &Arc<GlobalState>,
+) -> Result<(), Packet> {
     log::debug!("{} received a disconnect packet", session.client_id);
     if let Some(value) = packet.properties.session_expiry_interval {
         if session.session_expiry_interval == 0 && value > 0 {
@@ -381,7 +385,7 @@ pub(crate) fn handle_disconnect(session: &mut Session, packet: Disconnect) -> Re
                 "SessionExpiryInterval is 0 in CONNECT",
             ));
         }
-        session.session_expiry_interval = value;
+        session.session_expiry_interval = value.min(global.config.max_session_expiry_interval);
     }
 
     // * no UserProperty
-- 
2.43.0


From 4f7b91f237d6797e5157885a63e1ae100850dea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:02 +0000
Subject: [PATCH 26/48] fix: do not accept a password against a truncated
 PBKDF2 hash

---
 akasa-core/src/protocols/mqtt/auth.rs | 40 ++++++++++++++++-----------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/auth.rs b/akasa-core/src/protocols/mqtt/auth.rs
index 28b74b5..9ac7d90 100644
--- a/akasa-core/src/protocols/mqtt/auth.rs
+++ b/akasa-core/src/protocols/mqtt/auth.rs
@@ -186,22 +186,30 @@ pub fn check_password(
                 ctx.update(&item.salt);
                 ctx.finish().as_ref() == item.hashed_password
             }
-            HashAlgorithm::Sha256Pkbdf2 { iterations } => pbkdf2::verify(
-                PBKDF2_HMAC_SHA256,
-                iterations,
-                &item.salt,
-                password,
-                &item.hashed_password,
-            )
-            .is_ok(),
-            HashAlgorithm::Sha512Pkbdf2 { iterations } => pbkdf2::verify(
-                PBKDF2_HMAC_SHA512,
-                iterations,
-                &item.salt,
-                password,
-                &item.hashed_password,
-            )
-            .is_ok(),
+            HashAlgorithm::Sha256Pkbdf2 { iterations } => {
+                // `verify` compares only as many bytes as are stored
+                item.hashed_password.len() == SHA256_OUTPUT_LEN
+                    && pbkdf2::verify(
+                        PBKDF2_HMAC_SHA256,
+                        iterations,
+                        &item.salt,
+                        password,
+                        &item.hashed_password,
+                    )
+                    .is_ok()
+            }
+            HashAlgorithm::Sha512Pkbdf2 { iterations } => {
+                // `verify` compares only as many bytes as are stored
+                item.hashed_password.len() == SHA512_OUTPUT_LEN
+                    && pbkdf2::verify(
+                        PBKDF2_HMAC_SHA512,
+                        iterations,
+                        &item.salt,
+                        password,
+                        &item.hashed_password,
+                    )
+                    .is_ok()
+            }
         }
     } else {
         false
-- 
2.43.0


From 58e1be5348f801b666ee7819ccbd8fbb07c38f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:12 +0000
Subject: [PATCH 27/48] fix: bound the time a closing connection waits for its
 client to read

---
 akasa-core/src/protocols/mqtt/online_loop.rs | 21 ++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/online_loop.rs b/akasa-core/src/protocols/mqtt/online_loop.rs
index 46fa97d..2fa8d95 100644
--- a/akasa-core/src/protocols/mqtt/online_loop.rs
+++ b/akasa-core/src/protocols/mqtt/online_loop.rs
@@ -580,6 +580,17 @@ where
         }
 
         if draining.is_some() {
+            // A client that does not read must not keep the connection open.
+            if drain_sleep.is_none() {
+                *drain_sleep = Some(Box::pin(tokio::time::sleep(
+                    std::time::Duration::from_secs(1),
+                )));
+            }
+            if let Some(sleep) = drain_sleep.as_mut()
+                && sleep.as_mut().poll(cx).is_ready()
+            {
+                return Poll::Ready(None);
+            }
             while !write_packets.is_empty() {
                 let (mut data_all, mut data_idx) = (Vec::new(), 0);
                 while let Some(write_packet) = write_packets.pop_front() {
@@ -636,16 +647,6 @@ where
             if *draining != Some(Disconnected::ByServer) {
                 return Poll::Ready(None);
             }
-            if drain_sleep.is_none() {
-                *drain_sleep = Some(Box::pin(tokio::time::sleep(
-                    std::time::Duration::from_secs(1),
-                )));
-            }
-            if let Some(sleep) = drain_sleep.as_mut()
-                && sleep.as_mut().poll(cx).is_ready()
-            {
-                return Poll::Ready(None);
-            }
             let mut drain_buf = [MaybeUninit::uninit(); 256];
             let mut drain_rb = ReadBuf::uninit(&mut drain_buf);
             match Pin::new(&mut *conn).poll_read(cx, &mut drain_rb) {
-- 
2.43.0


From 85af8685e00aae78c4bdfb7dfe936ead17f22020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:12 +0000
Subject: [PATCH 28/48] fix: refuse a configuration with a zero in-flight limit

---
 akasa-core/src/config.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/akasa-core/src/config.rs b/akasa-core/src/config.rs
index 114074f..631bcfa 100644
--- a/akasa-core/src/config.rs
+++ b/akasa-core/src/config.rs
@@ -267,6 +267,14 @@ impl Config {
             log::error!("invalid server max_packet_size, 0 is not allowed");
             return false;
         }
+        if self.max_inflight_client == 0 {
+            log::error!("invalid client max_inflight, 0 is not allowed");
+            return false;
+        }
+        if self.max_inflight_server == 0 {
+            log::error!("invalid server max_inflight, 0 is not allowed");
+            return false;
+        }
         for mechanism in &self.sasl_mechanisms {
             if mechanism != &SaslMechanism::ScramSha256 {
                 log::error!("invalid sasl_mechanism, only `SCRAM-SHA-256` is allowed");
-- 
2.43.0


From fe841145291f014e96e8eee17f205be6531221f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:12 +0000
Subject: [PATCH 29/48] fix: apply the connect timeout to the WebSocket
 handshake

---
 akasa-core/src/server/mod.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/akasa-core/src/server/mod.rs b/akasa-core/src/server/mod.rs
index 8d959a4..12207cc 100644
--- a/akasa-core/src/server/mod.rs
+++ b/akasa-core/src/server/mod.rs
@@ -135,13 +135,17 @@ pub async fn handle_accept<
             }
             Ok(resp)
         };
-        let stream = match accept_hdr_async(tls_wrapper, handler).await {
-            Ok(stream) => stream,
-            Err(err) => {
+        let stream = accept_hdr_async(tls_wrapper, handler)
+            .map_err(|err| {
                 log::warn!("Accept websocket connection error: {:?}", err);
-                return Err(io::ErrorKind::InvalidData.into());
-            }
-        };
+                io::Error::from(io::ErrorKind::InvalidData)
+            })
+            .or(async {
+                let _ = timeout_receiver.recv_async().await;
+                log::info!("timeout when accept websocket: {}", peer);
+                Err(io::ErrorKind::TimedOut.into())
+            })
+            .await?;
         WebSocketWrapper::WebSocket {
             stream,
             read_data: Bytes::new(),
-- 
2.43.0


From 461835a43ca49f7302c3f4657627b297a6862b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:12 +0000
Subject: [PATCH 30/48] fix: accept mqtt among several WebSocket subprotocols

---
 akasa-core/src/server/mod.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/akasa-core/src/server/mod.rs b/akasa-core/src/server/mod.rs
index 12207cc..e1d4d7d 100644
--- a/akasa-core/src/server/mod.rs
+++ b/akasa-core/src/server/mod.rs
@@ -122,16 +122,25 @@ pub async fn handle_accept<
     // Handle WebSocket
     let mut ws_wrapper = if conn_args.websocket {
         let handler = |req: &http::Request<_>, mut resp: http::Response<_>| {
-            if let Some(protocol) = req.headers().get("Sec-WebSocket-Protocol") {
+            let mut offered = req
+                .headers()
+                .get_all("Sec-WebSocket-Protocol")
+                .iter()
+                .flat_map(|value| value.as_bytes().split(|byte| *byte == b','))
+                .map(|name| name.trim_ascii())
+                .peekable();
+            if offered.peek().is_some() {
                 // see: [MQTT-6.0.0-3]
-                if protocol != "mqtt" {
-                    log::info!("invalid WebSocket subprotocol name: {:?}", protocol);
+                if !offered.any(|name| name == b"mqtt") {
+                    log::info!("invalid WebSocket subprotocol name");
                     return Err(http::Response::new(Some(
                         "invalid WebSocket subprotocol name".to_string(),
                     )));
                 }
-                resp.headers_mut()
-                    .insert("Sec-WebSocket-Protocol", protocol.clone());
+                resp.headers_mut().insert(
+                    "Sec-WebSocket-Protocol",
+                    http::HeaderValue::from_static("mqtt"),
+                );
             }
             Ok(resp)
         };
-- 
2.43.0


From 7b85299cdef015a33682090ceabc67b2c7739b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:12 +0000
Subject: [PATCH 31/48] fix: answer the close frame of a WebSocket client

---
 akasa-core/src/server/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/akasa-core/src/server/mod.rs b/akasa-core/src/server/mod.rs
index e1d4d7d..773f730 100644
--- a/akasa-core/src/server/mod.rs
+++ b/akasa-core/src/server/mod.rs
@@ -438,7 +438,11 @@ impl<S: AsyncRead + AsyncWrite + Unpin> AsyncRead for WebSocketWrapper<S> {
                                 copy_data(buf, read_data, read_data_idx);
                                 return Poll::Ready(Ok(()));
                             }
-                            Message::Close(_) => return Poll::Ready(Ok(())),
+                            Message::Close(_) => {
+                                // Send the close frame that answers this one
+                                let _ignore = Pin::new(&mut *stream).poll_flush(cx);
+                                return Poll::Ready(Ok(()));
+                            }
                             Message::Ping(data) => {
                                 *pending_pong = Some(data);
                                 ws_send_pong(stream, pending_pong, cx)?;
-- 
2.43.0


From c203fcfa41d15739365d8616205e5c617092724e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:47 +0000
Subject: [PATCH 32/48] fix: deliver messages whatever the in-flight timeout is

---
 akasa-core/src/protocols/mqtt/pending.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/pending.rs b/akasa-core/src/protocols/mqtt/pending.rs
index e6bff72..5ed182a 100644
--- a/akasa-core/src/protocols/mqtt/pending.rs
+++ b/akasa-core/src/protocols/mqtt/pending.rs
@@ -117,14 +117,10 @@ impl<P: Debug> PendingPackets<P> {
         for idx in start_idx..current_inflight {
             let packet_status = self.packets.get_mut(idx).expect("packet");
             match packet_status {
-                PendingPacketStatus::New { last_sent, .. } => {
-                    if now_ts >= self.timeout + *last_sent {
-                        next_idx = Some(idx);
-                        break;
-                    }
-                }
-                PendingPacketStatus::Pubrec { last_sent, .. } => {
-                    if now_ts >= self.timeout + *last_sent {
+                PendingPacketStatus::New { last_sent, .. }
+                | PendingPacketStatus::Pubrec { last_sent, .. } => {
+                    // 0 means not sent in this connection
+                    if *last_sent == 0 || now_ts >= self.timeout.saturating_add(*last_sent) {
                         next_idx = Some(idx);
                         break;
                     }
-- 
2.43.0


From fe0001d4c306795a38728b184d88652050b064ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:47 +0000
Subject: [PATCH 33/48] fix: admit a client whose previous session ends at that
 moment

---
 akasa-core/src/state.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/akasa-core/src/state.rs b/akasa-core/src/state.rs
index 900cd56..f305eb6 100644
--- a/akasa-core/src/state.rs
+++ b/akasa-core/src/state.rs
@@ -156,6 +156,26 @@ impl GlobalState {
         &self,
         client_identifier: &str,
         protocol: Protocol,
+    ) -> io::Result<AddClientReceipt> {
+        let find = || {
+            self.client_identifier_map
+                .get(client_identifier)
+                .map(|p| *p)
+        };
+        loop {
+            let old_id = find();
+            let result = self.try_add_client(client_identifier, protocol).await;
+            // The session may end before it is taken over
+            if result.is_ok() || find() == old_id {
+                return result;
+            }
+        }
+    }
+
+    async fn try_add_client(
+        &self,
+        client_identifier: &str,
+        protocol: Protocol,
     ) -> io::Result<AddClientReceipt> {
         let control_sender = {
             let mut next_client_id = self.next_client_id.lock();
-- 
2.43.0


From 2bd21726e8d177df55acb80b8400478d4f1a5abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:26 +0000
Subject: [PATCH 34/48] fix: send a WebSocket pong that was blocked as soon as
 possible

---
 akasa-core/src/server/mod.rs | 56 ++++--------------------------------
 1 file changed, 5 insertions(+), 51 deletions(-)

diff --git a/akasa-core/src/server/mod.rs b/akasa-core/src/server/mod.rs
index 773f730..a060f74 100644
--- a/akasa-core/src/server/mod.rs
+++ b/akasa-core/src/server/mod.rs
@@ -159,7 +159,6 @@ pub async fn handle_accept<
             stream,
             read_data: Bytes::new(),
             read_data_idx: 0,
-            pending_pong: None,
             closed: false,
         }
     } else {
@@ -361,43 +360,10 @@ enum WebSocketWrapper<S> {
         stream: WebSocketStream<TlsWrapper<S>>,
         read_data: Bytes,
         read_data_idx: usize,
-        pending_pong: Option<Bytes>,
         closed: bool,
     },
 }
 
-fn ws_send_pong<S: AsyncRead + AsyncWrite + Unpin>(
-    stream: &mut WebSocketStream<TlsWrapper<S>>,
-    pong: &mut Option<Bytes>,
-    cx: &mut Context<'_>,
-) -> io::Result<()> {
-    if let Some(data) = pong.take() {
-        let mut sink = Pin::new(stream);
-        match sink.as_mut().poll_ready(cx) {
-            Poll::Ready(Ok(_)) => {
-                sink.as_mut()
-                    .start_send(Message::Pong(data))
-                    .map_err(|err| {
-                        log::debug!("WebSocket send pong error: {:?}", err);
-                        io::Error::from(io::ErrorKind::BrokenPipe)
-                    })?;
-                let _ignore = sink.as_mut().poll_flush(cx).map_err(|err| {
-                    log::debug!("WebSocket flush pong error: {:?}", err);
-                    io::Error::from(io::ErrorKind::BrokenPipe)
-                })?;
-                Ok(())
-            }
-            Poll::Pending => {
-                *pong = Some(data);
-                Ok(())
-            }
-            Poll::Ready(Err(_)) => Err(Into::into(io::ErrorKind::BrokenPipe)),
-        }
-    } else {
-        Ok(())
-    }
-}
-
 impl<S: AsyncRead + AsyncWrite + Unpin> AsyncRead for WebSocketWrapper<S> {
     fn poll_read(
         self: Pin<&mut Self>,
@@ -410,8 +376,7 @@ impl<S: AsyncRead + AsyncWrite + Unpin> AsyncRead for WebSocketWrapper<S> {
                 stream,
                 read_data,
                 read_data_idx,
-                pending_pong,
-                closed,
+                ..
             } => {
                 fn copy_data(buf: &mut ReadBuf, data: &[u8], data_idx: &mut usize) -> usize {
                     let amt = cmp::min(data.len() - *data_idx, buf.remaining());
@@ -419,9 +384,6 @@ impl<S: AsyncRead + AsyncWrite + Unpin> AsyncRead for WebSocketWrapper<S> {
                     *data_idx += amt;
                     amt
                 }
-                if !*closed {
-                    ws_send_pong(stream, pending_pong, cx)?;
-                }
                 if *read_data_idx < read_data.len() {
                     copy_data(buf, read_data, read_data_idx);
                     return Poll::Ready(Ok(()));
@@ -443,9 +405,9 @@ impl<S: AsyncRead + AsyncWrite + Unpin> AsyncRead for WebSocketWrapper<S> {
                                 let _ignore = Pin::new(&mut *stream).poll_flush(cx);
                                 return Poll::Ready(Ok(()));
                             }
-                            Message::Ping(data) => {
-                                *pending_pong = Some(data);
-                                ws_send_pong(stream, pending_pong, cx)?;
+                            Message::Ping(_) => {
+                                // The next `poll_next` sends the pong, or keeps it
+                                // until the connection can be written.
                             }
                             Message::Pong(_) => {
                                 log::debug!("WebSocket pong message not allowed!");
@@ -481,15 +443,7 @@ impl<S: AsyncRead + AsyncWrite + Unpin> AsyncWrite for WebSocketWrapper<S> {
     ) -> Poll<io::Result<usize>> {
         match self.get_mut() {
             WebSocketWrapper::Raw(conn) => Pin::new(conn).poll_write(cx, buf),
-            WebSocketWrapper::WebSocket {
-                stream,
-                pending_pong,
-                closed,
-                ..
-            } => {
-                if !*closed {
-                    ws_send_pong(stream, pending_pong, cx)?;
-                }
+            WebSocketWrapper::WebSocket { stream, .. } => {
                 match Pin::new(&mut *stream).poll_ready(cx) {
                     Poll::Ready(Ok(())) => {}
                     Poll::Ready(Err(err)) => {
-- 
2.43.0


From 10a74138de0d80d7a4de0366bd7109002ecf914d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:58 +0000
Subject: [PATCH 35/48] fix: keep receiving while a closing connection hands
 over its last messages

---
 akasa-core/src/protocols/mqtt/v3/message.rs | 45 +++++++++++++--------
 akasa-core/src/protocols/mqtt/v5/message.rs | 31 +++++++++-----
 2 files changed, 49 insertions(+), 27 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index ce9587e..00eff74 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -217,23 +217,7 @@ async fn handle_online<
             log::warn!("send will failed (packet too large)");
         }
     }
-    for (target_id, info) in session.broadcast_packets.drain() {
-        for msg in info.msgs {
-            if let Err(err) = info
-                .sink
-                .sender()
-                .send_async((session.client_id, msg))
-                .await
-            {
-                log::warn!(
-                    "[{}] handle will, send broadcast message to {} failed: {:?}",
-                    session.client_id,
-                    target_id,
-                    err
-                )
-            }
-        }
-    }
+    broadcast_packets(&mut session, &receiver).await;
     if session.clean_session {
         global.remove_client(session.client_id, session.subscribes.keys());
         if let Some(err) = result? {
@@ -496,6 +480,33 @@ impl OnlineSession for Session {
     }
 }
 
+async fn broadcast_packets(session: &mut Session, receiver: &ClientReceiver) {
+    session.broadcast_packets_cnt = 0;
+    for (target_id, info) in mem::take(&mut session.broadcast_packets) {
+        for msg in info.msgs {
+            let mut send_fut = info.sink.sender().send_async((session.client_id, msg));
+            // The target may be this session, or wait for this session to receive.
+            let result = loop {
+                tokio::select! {
+                    biased;
+                    result = &mut send_fut => break result,
+                    Ok((sender, msg)) = receiver.normal.recv_async() => {
+                        let _ = handle_normal(session, sender, msg);
+                    }
+                }
+            };
+            if let Err(err) = result {
+                log::warn!(
+                    "[{}] handle will, send broadcast message to {} failed: {:?}",
+                    session.client_id,
+                    target_id,
+                    err
+                )
+            }
+        }
+    }
+}
+
 async fn handle_offline(mut session: Session, receiver: ClientReceiver, global: Arc<GlobalState>) {
     let mut taken_over = false;
     loop {
diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index 6724d0c..f8a035b 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -345,7 +345,7 @@ async fn handle_online<
     if handle_will(&mut session, global).await.is_err() {
         log::warn!("send will failed (packet too large)");
     }
-    broadcast_packets(&mut session).await;
+    broadcast_packets(&mut session, &receiver, global).await;
     if session.session_expiry_interval == 0 {
         global.remove_client(session.client_id, session.subscribes.keys());
         if let Some(err) = result? {
@@ -704,7 +704,7 @@ async fn handle_offline(mut session: Session, receiver: ClientReceiver, global:
                         break;
                     }
                     // Because send_will is not a async_function
-                    broadcast_packets(&mut session).await;
+                    broadcast_packets(&mut session, &receiver, &global).await;
                     if stop {
                         break;
                     }
@@ -969,8 +969,13 @@ pub(super) fn send_will(session: &mut Session, global: &Arc<GlobalState>) -> io:
     Ok(())
 }
 
-async fn broadcast_packets(session: &mut Session) {
-    for (target_id, info) in session.broadcast_packets.drain() {
+async fn broadcast_packets(
+    session: &mut Session,
+    receiver: &ClientReceiver,
+    global: &Arc<GlobalState>,
+) {
+    session.broadcast_packets_cnt = 0;
+    for (target_id, info) in mem::take(&mut session.broadcast_packets) {
         for msg in info.msgs {
             log::debug!(
                 "[{}] broadcast to [{}], {:?}",
@@ -978,12 +983,18 @@ async fn broadcast_packets(session: &mut Session) {
                 target_id,
                 msg
             );
-            if let Err(err) = info
-                .sink
-                .sender()
-                .send_async((session.client_id, msg))
-                .await
-            {
+            let mut send_fut = info.sink.sender().send_async((session.client_id, msg));
+            // The target may be this session, or wait for this session to receive.
+            let result = loop {
+                tokio::select! {
+                    biased;
+                    result = &mut send_fut => break result,
+                    Ok((sender, msg)) = receiver.normal.recv_async() => {
+                        let _ = handle_normal(session, sender, msg, global);
+                    }
+                }
+            };
+            if let Err(err) = result {
                 log::warn!(
                     "[{}] handle will, send broadcast message to {} failed: {:?}",
                     session.client_id,
-- 
2.43.0


From 80c642dfc39457849b1a64de29267f7e40097cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:32 +0000
Subject: [PATCH 36/48] fix: serve a resumed session whose client does not read
 its pending messages

---
 akasa-core/src/protocols/mqtt/online_loop.rs | 3 ++-
 akasa-core/src/protocols/mqtt/v3/message.rs  | 9 +++++----
 akasa-core/src/protocols/mqtt/v5/message.rs  | 7 ++++---
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/online_loop.rs b/akasa-core/src/protocols/mqtt/online_loop.rs
index 2fa8d95..a510bb5 100644
--- a/akasa-core/src/protocols/mqtt/online_loop.rs
+++ b/akasa-core/src/protocols/mqtt/online_loop.rs
@@ -73,6 +73,7 @@ where
         conn: &'a mut C,
         taken_over: &'a mut bool,
         packet_state: GenericPollPacketState<H>,
+        write_packets: VecDeque<WritePacket<S::Packet>>,
     ) -> Self {
         OnlineLoop {
             session,
@@ -87,7 +88,7 @@ where
             read_unfinish: false,
             normal_stream_unfinish: false,
             write_packets_max: 16,
-            write_packets: VecDeque::with_capacity(16),
+            write_packets,
             session_state_sender: None,
             hook_fut: None,
             flush_unfinish: false,
diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index 00eff74..a643712 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -28,7 +28,7 @@ use crate::state::{ClientId, ClientReceiver, ControlMessage, GlobalState, Normal
 use super::{
     Session, SessionState,
     packet::{
-        common::{after_handle_packet, handle_pendings, write_packet},
+        common::{after_handle_packet, handle_pendings},
         connect::{handle_connect, handle_disconnect},
         publish::{
             RecvPublish, SendPublish, handle_puback, handle_pubcomp, handle_publish, handle_pubrec,
@@ -144,9 +144,9 @@ async fn handle_session<
         after_connect_hook(session, session_present, hook_handler, global).await?;
     }
 
-    for packet in after_handle_packet(session) {
-        write_packet(session.client_id, &mut conn, &packet).await?;
-    }
+    let mut write_packets = VecDeque::with_capacity(16);
+    let pending_packets = after_handle_packet(session);
+    write_packets.extend(pending_packets.into_iter().map(WritePacket::Packet));
 
     let receiver = receiver.as_ref().expect("receiver");
     log::info!(
@@ -166,6 +166,7 @@ async fn handle_session<
         &mut conn,
         taken_over,
         PollPacketState::default(),
+        write_packets,
     );
     let io_error = online_loop.await;
     if global.config.hook.enable_after_disconnect {
diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index f8a035b..e2abe4b 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -268,9 +268,9 @@ async fn handle_session<
         after_connect_hook(session, session_present, hook_handler, global).await?;
     }
 
-    for packet in after_handle_packet(session) {
-        write_packet(session.client_id, &mut conn, &packet).await?;
-    }
+    let mut write_packets = VecDeque::with_capacity(16);
+    let pending_packets = after_handle_packet(session);
+    write_packets.extend(pending_packets.into_iter().map(WritePacket::Packet));
 
     let receiver = receiver.as_ref().expect("receiver");
     log::info!(
@@ -290,6 +290,7 @@ async fn handle_session<
         &mut conn,
         taken_over,
         PollPacketState::default(),
+        write_packets,
     );
     let io_error = online_loop.await;
     if global.config.hook.enable_after_disconnect {
-- 
2.43.0


From 2b05ec1e0a8ffff33ce4325608c2bd339fcbeb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 37/48] fix: do not panic when the last subscriber leaves while
 a message is being matched

---
 akasa-core/src/protocols/mqtt/v3/packet/publish.rs | 5 ++++-
 akasa-core/src/protocols/mqtt/v5/packet/publish.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
index 7104aef..6c8d2be 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
@@ -198,7 +198,10 @@ pub(crate) fn send_publish(session: &mut Session, msg: SendPublish, global: &Arc
     let mut senders = Vec::with_capacity(matches.len());
     for content in matches {
         let content = content.read();
-        let subscribe_filter = content.topic_filter.as_ref().unwrap();
+        // the last subscriber may have gone after the match
+        let Some(subscribe_filter) = content.topic_filter.as_ref() else {
+            continue;
+        };
         for (client_id, subscribe_qos) in &content.clients {
             senders.push((*client_id, subscribe_filter.clone(), *subscribe_qos));
         }
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
index 20ca4d7..20faf00 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
@@ -366,7 +366,10 @@ pub(crate) fn send_publish(
         Vec::with_capacity(matched_len);
     for content in matches {
         let content = content.read();
-        let subscribe_filter = content.topic_filter.as_ref().unwrap();
+        // the last subscriber may have gone after the match
+        let Some(subscribe_filter) = content.topic_filter.as_ref() else {
+            continue;
+        };
         for (client_id, subscribe_qos) in &content.clients {
             if *client_id == session.client_id {
                 if let Some(sub) = session.subscribes.get(subscribe_filter) {
-- 
2.43.0


From 675230c1fb2225886c028423f9dd5eafc15559e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 38/48] fix: deliver messages of v3.x publishers to shared
 subscriptions

---
 .../src/protocols/mqtt/v3/packet/publish.rs   | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
index 6c8d2be..e2bde98 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
@@ -7,10 +7,12 @@ use std::sync::Arc;
 use ahash::AHasher;
 use bytes::Bytes;
 use mqtt_proto::{
-    Encodable, Pid, QoS, QosPid, TopicFilter, TopicName, total_len,
+    Encodable, Pid, QoS, QosPid, SHARED_PREFIX, TopicFilter, TopicName, total_len,
     v3::{Packet, Publish},
 };
+use rand::RngExt;
 
+use crate::config::SharedSubscriptionMode;
 use crate::protocols::mqtt::{BroadcastPackets, RetainContent};
 use crate::state::{GlobalState, NormalMessage};
 
@@ -205,6 +207,22 @@ pub(crate) fn send_publish(session: &mut Session, msg: SendPublish, global: &Arc
         for (client_id, subscribe_qos) in &content.clients {
             senders.push((*client_id, subscribe_filter.clone(), *subscribe_qos));
         }
+        for (group_name, shared_clients) in &content.groups {
+            let (client_id, subscribe_qos) = match global.config.shared_subscription_mode {
+                SharedSubscriptionMode::Random => {
+                    shared_clients.get_by_number(rand::rng().random())
+                }
+                SharedSubscriptionMode::HashClientId => {
+                    shared_clients.get_by_hash(&session.client_identifier)
+                }
+                SharedSubscriptionMode::HashTopicName => shared_clients.get_by_hash(msg.topic_name),
+            };
+            let full_filter = TopicFilter::try_from(
+                format!("{SHARED_PREFIX}{group_name}/{subscribe_filter}").as_str(),
+            )
+            .expect("full topic filter");
+            senders.push((client_id, full_filter, subscribe_qos));
+        }
     }
 
     session.broadcast_packets_cnt += senders.len();
-- 
2.43.0


From 197f231b0203bb4ed968b68c0f501b1966009913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:50 +0000
Subject: [PATCH 39/48] fix: call the after-connect hook when it is enabled

---
 akasa-core/src/protocols/mqtt/v3/message.rs | 2 +-
 akasa-core/src/protocols/mqtt/v5/message.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index a643712..4e17c25 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -140,7 +140,7 @@ async fn handle_session<
     }
 
     // Run after connect hook
-    if global.config.hook.enable_before_connect {
+    if global.config.hook.enable_after_connect {
         after_connect_hook(session, session_present, hook_handler, global).await?;
     }
 
diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index e2abe4b..6b1aab1 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -264,7 +264,7 @@ async fn handle_session<
     }
 
     // Run after connect hook
-    if global.config.hook.enable_before_connect {
+    if global.config.hook.enable_after_connect {
         after_connect_hook(session, session_present, hook_handler, global).await?;
     }
 
-- 
2.43.0


From efd31695821ad5493e460ef429f4aef45add409e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:56 +0000
Subject: [PATCH 40/48] fix: tell a v3.x client why the before-connect hook
 refused it

---
 akasa-core/src/protocols/mqtt/v3/message.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index 4e17c25..d7c77ac 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -10,7 +10,7 @@ use hashbrown::HashMap;
 use mqtt_proto::{
     Error, IoErrorKind, Pid, Protocol, QoS, QosPid,
     v3::{
-        Connect, ConnectReturnCode, Header, Packet, PollPacketState, Publish, Subscribe,
+        Connack, Connect, ConnectReturnCode, Header, Packet, PollPacketState, Publish, Subscribe,
         SubscribeReturnCode, Unsubscribe,
     },
 };
@@ -28,7 +28,7 @@ use crate::state::{ClientId, ClientReceiver, ControlMessage, GlobalState, Normal
 use super::{
     Session, SessionState,
     packet::{
-        common::{after_handle_packet, handle_pendings},
+        common::{after_handle_packet, handle_pendings, write_packet},
         connect::{handle_connect, handle_disconnect},
         publish::{
             RecvPublish, SendPublish, handle_puback, handle_pubcomp, handle_publish, handle_pubrec,
@@ -129,7 +129,7 @@ async fn handle_session<
 
     // Run before connect hook
     if global.config.hook.enable_before_connect {
-        before_connect_hook(peer, &packet, hook_handler, global).await?;
+        before_connect_hook(session, &mut conn, peer, &packet, hook_handler, global).await?;
     }
 
     let session_present = handle_connect(session, receiver, packet, &mut conn, global).await?;
@@ -693,7 +693,9 @@ fn handle_normal(
     }
 }
 
-async fn before_connect_hook<H: Hook + Clone + Send + Sync>(
+async fn before_connect_hook<T: AsyncWrite + Unpin, H: Hook + Clone + Send + Sync>(
+    session: &mut Session,
+    conn: &mut T,
     peer: SocketAddr,
     packet: &Connect,
     hook_handler: &H,
@@ -708,6 +710,8 @@ async fn before_connect_hook<H: Hook + Clone + Send + Sync>(
         _ => panic!("invalid response"),
     };
     if code != ConnectReturnCode::Accepted {
+        let rv_packet = Connack::new(false, code);
+        write_packet(session.client_id, conn, &rv_packet.into()).await?;
         return Err(io::ErrorKind::InvalidData.into());
     }
     Ok(())
-- 
2.43.0


From 58cd72764bf8701afb68d138011bc434f156413a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:02 +0000
Subject: [PATCH 41/48] fix: do not queue retained messages for a v3.x
 subscribe action

---
 akasa-core/src/protocols/mqtt/v3/message.rs   | 34 +++++--------------
 .../src/protocols/mqtt/v3/packet/subscribe.rs | 31 +++++++++++------
 2 files changed, 29 insertions(+), 36 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index d7c77ac..c3ed09d 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -10,8 +10,7 @@ use hashbrown::HashMap;
 use mqtt_proto::{
     Error, IoErrorKind, Pid, Protocol, QoS, QosPid,
     v3::{
-        Connack, Connect, ConnectReturnCode, Header, Packet, PollPacketState, Publish, Subscribe,
-        SubscribeReturnCode, Unsubscribe,
+        Connack, Connect, ConnectReturnCode, Header, Packet, PollPacketState, Publish, Unsubscribe,
     },
 };
 use tokio::io::{AsyncRead, AsyncWrite};
@@ -34,7 +33,7 @@ use super::{
             RecvPublish, SendPublish, handle_puback, handle_pubcomp, handle_publish, handle_pubrec,
             handle_pubrel, recv_publish, send_publish,
         },
-        subscribe::{handle_subscribe, handle_unsubscribe},
+        subscribe::{handle_subscribe, handle_unsubscribe, subscribe},
     },
 };
 
@@ -421,29 +420,12 @@ impl OnlineSession for Session {
                 );
             }
             HookAction::Subscribe(SubscribeAction(topics)) => {
-                let subscribe = Subscribe::new(Pid::default(), topics.clone());
-                match handle_subscribe(self, &subscribe, global) {
-                    Ok(packets) => match &packets[0] {
-                        Packet::Suback(suback) => {
-                            for reason_code in &suback.topics {
-                                match reason_code {
-                                    SubscribeReturnCode::MaxLevel0
-                                    | SubscribeReturnCode::MaxLevel1
-                                    | SubscribeReturnCode::MaxLevel2 => {}
-                                    code => {
-                                        log::error!(
-                                            "action subscribe message error return code: {:?}, topics={:?}",
-                                            code,
-                                            topics,
-                                        );
-                                        break;
-                                    }
-                                }
-                            }
-                        }
-                        _ => log::error!("action subscribe message invalid (retain included)"),
-                    },
-                    Err(err) => log::error!("action subscribe message invalid: {:?}", err),
+                for (filter, qos) in &topics {
+                    // NOTE: retain message will not send
+                    if subscribe(self, filter, *qos, global).is_err() {
+                        log::error!("action subscribe message invalid, topics={:?}", topics);
+                        break;
+                    }
                 }
             }
             HookAction::Unsubscribe(UnsubscribeAction(topics)) => {
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs b/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
index 6cd25d6..5e84a5c 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
@@ -3,7 +3,7 @@ use std::io;
 use std::sync::Arc;
 
 use mqtt_proto::{
-    QoS,
+    QoS, TopicFilter,
     v3::{Packet, Suback, Subscribe, Unsubscribe},
 };
 
@@ -30,15 +30,7 @@ packet id : {}
     let mut rv_packets = Vec::new();
     let mut return_codes = Vec::with_capacity(packet.topics.len());
     for (filter, qos) in &packet.topics {
-        if filter.is_shared() {
-            log::info!("mqtt v3.x don't support shared subscription");
-            return Err(io::ErrorKind::InvalidData.into());
-        }
-        let granted_qos = cmp::min(*qos, global.config.max_allowed_qos());
-        session.subscribes.insert(filter.clone(), granted_qos);
-        global
-            .route_table
-            .subscribe(filter, session.client_id, granted_qos);
+        let granted_qos = subscribe(session, filter, *qos, global)?;
 
         let mut process_pendings = false;
         for msg in global.retain_table.get_matches(filter) {
@@ -70,6 +62,25 @@ packet id : {}
     Ok(rv_packets)
 }
 
+/// Subscribe to one topic filter, without sending its retained messages.
+pub(crate) fn subscribe(
+    session: &mut Session,
+    filter: &TopicFilter,
+    qos: QoS,
+    global: &Arc<GlobalState>,
+) -> io::Result<QoS> {
+    if filter.is_shared() {
+        log::info!("mqtt v3.x don't support shared subscription");
+        return Err(io::ErrorKind::InvalidData.into());
+    }
+    let granted_qos = cmp::min(qos, global.config.max_allowed_qos());
+    session.subscribes.insert(filter.clone(), granted_qos);
+    global
+        .route_table
+        .subscribe(filter, session.client_id, granted_qos);
+    Ok(granted_qos)
+}
+
 #[inline]
 pub(crate) fn handle_unsubscribe(
     session: &mut Session,
-- 
2.43.0


From c5c93b72d4a52e5aec092e7ba5d90f413aa09e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:27 +0000
Subject: [PATCH 42/48] fix: deliver to a v3.x client that gave up one of
 several matching filters

---
 akasa-core/src/protocols/mqtt/v3/message.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index c3ed09d..2350a6b 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -659,6 +659,10 @@ fn handle_normal(
                 session.client_id,
                 sender
             );
+            // one of the filters may be unsubscribed already
+            let subscribe_filter = subscribe_filters
+                .iter()
+                .find(|filter| session.subscribes.contains_key(*filter))?;
             recv_publish(
                 session,
                 RecvPublish {
@@ -667,7 +671,7 @@ fn handle_normal(
                     // [MQTT-3.3.1-9]
                     retain: false,
                     payload,
-                    subscribe_filter: subscribe_filters.first()?,
+                    subscribe_filter,
                     subscribe_qos,
                 },
             )
-- 
2.43.0


From a4dec7a1e6c2f77773956e774da7ca4505289396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:49 +0000
Subject: [PATCH 43/48] fix: refuse QoS above the maximum from v3.x clients as
 well

---
 akasa-core/src/protocols/mqtt/v3/packet/connect.rs | 3 +++
 akasa-core/src/protocols/mqtt/v3/packet/publish.rs | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
index d646590..34c3d2d 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
@@ -106,6 +106,9 @@ clean session : {}
         if last_will.topic_name.starts_with('$') {
             return Err(io::ErrorKind::InvalidData.into());
         }
+        if last_will.qos > global.config.max_allowed_qos() {
+            return Err(io::ErrorKind::InvalidData.into());
+        }
         session.last_will = Some(last_will);
     }
 
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
index e2bde98..623e2d3 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
@@ -48,6 +48,10 @@ topic name : {}
         log::debug!("invalid dup flag");
         return Err(io::ErrorKind::InvalidData.into());
     }
+    if packet.qos_pid.qos() > global.config.max_allowed_qos() {
+        log::debug!("qos not supported");
+        return Err(io::ErrorKind::InvalidData.into());
+    }
 
     // The packet identifier is already in use by this very message.
     let mut redelivered = false;
-- 
2.43.0


From 9dc61dfa665f162b118c2c28d698b8c60f2911b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:01 +0000
Subject: [PATCH 44/48] fix: refuse no local on a shared subscription

---
 .../src/protocols/mqtt/v5/packet/subscribe.rs      | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs b/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs
index ac1d8cc..bf5e76f 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs
@@ -41,6 +41,20 @@ packet id : {}
         return Err(err_pkt);
     }
 
+    // [MQTT-3.8.3-4]
+    if packet
+        .topics
+        .iter()
+        .any(|(filter, options)| filter.is_shared() && options.no_local)
+    {
+        let err_pkt = build_error_disconnect(
+            session,
+            DisconnectReasonCode::ProtocolError,
+            "No local is not allowed on a shared subscription",
+        );
+        return Err(err_pkt);
+    }
+
     let mut rv_packets = Vec::new();
 
     let reason_codes = if !global.config.subscription_id_available
-- 
2.43.0


From df141a783f2d92409b79b299a2ecfa20a7952e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:13 +0000
Subject: [PATCH 45/48] fix: a refused v3.x SUBSCRIBE subscribes to none of its
 filters

---
 akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs b/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
index 5e84a5c..7b93ce7 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
@@ -27,6 +27,11 @@ packet id : {}
         packet.pid.value(),
         packet.topics,
     );
+    if packet.topics.iter().any(|(filter, _)| filter.is_shared()) {
+        log::info!("mqtt v3.x don't support shared subscription");
+        return Err(io::ErrorKind::InvalidData.into());
+    }
+
     let mut rv_packets = Vec::new();
     let mut return_codes = Vec::with_capacity(packet.topics.len());
     for (filter, qos) in &packet.topics {
-- 
2.43.0


From e80d5698715eea6bfe2fb215d62ced87b24af5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:47 +0000
Subject: [PATCH 46/48] fix: v5 messages for v3 subscribers expire as well

A message of a v5 publisher with an expiry interval, queued for a v3.x
client that is offline or slow, was sent however late. [MQTT-3.3.2-5]
says the copy for a subscriber is deleted when the interval is over.
---
 akasa-core/src/protocols/mqtt/v3/message.rs   |  4 +++-
 .../src/protocols/mqtt/v3/packet/common.rs    | 20 +++++++++++++++++--
 .../src/protocols/mqtt/v3/packet/publish.rs   |  3 +++
 .../src/protocols/mqtt/v3/packet/subscribe.rs |  4 ++++
 akasa-core/src/protocols/mqtt/v3/session.rs   |  2 ++
 5 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index 2350a6b..22f5da0 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -641,6 +641,7 @@ fn handle_normal(
                     payload,
                     subscribe_filter,
                     subscribe_qos,
+                    message_expiry_interval: None,
                 },
             )
         }
@@ -651,7 +652,7 @@ fn handle_normal(
             ref payload,
             ref subscribe_filters,
             subscribe_qos,
-            properties: _,
+            ref properties,
             encode_len: _,
         } => {
             log::debug!(
@@ -673,6 +674,7 @@ fn handle_normal(
                     payload,
                     subscribe_filter,
                     subscribe_qos,
+                    message_expiry_interval: properties.message_expiry_interval,
                 },
             )
         }
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/common.rs b/akasa-core/src/protocols/mqtt/v3/packet/common.rs
index 4329f8d..f678678 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/common.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/common.rs
@@ -22,17 +22,27 @@ pub(crate) fn after_handle_packet(session: &mut Session) -> Vec<Packet> {
 pub(crate) fn handle_pendings(session: &mut Session) -> Vec<Packet> {
     session.pending_packets.clean_complete();
     let mut packets = Vec::new();
+    let mut expired_packets = Vec::new();
     let mut start_idx = 0;
     while let Some((idx, packet_status)) = session.pending_packets.get_ready_packet(start_idx) {
         start_idx = idx + 1;
         match packet_status {
             PendingPacketStatus::New {
+                added_at,
                 last_sent,
                 dup,
                 pid,
                 packet,
-                ..
             } => {
+                let now_ts = get_unix_ts();
+                // a message already sent is in flight and can't expire
+                if let Some(value) = packet.message_expiry_interval
+                    && !*dup
+                    && now_ts - *added_at >= value as u64
+                {
+                    expired_packets.push(*pid);
+                    continue;
+                }
                 let qos_pid = match packet.qos {
                     QoS::Level0 => QosPid::Level0,
                     QoS::Level1 => QosPid::Level1(*pid),
@@ -46,7 +56,7 @@ pub(crate) fn handle_pendings(session: &mut Session) -> Vec<Packet> {
                     payload: packet.payload.clone(),
                 };
                 *dup = true;
-                *last_sent = get_unix_ts();
+                *last_sent = now_ts;
                 packets.push(rv_packet.into());
             }
             PendingPacketStatus::Pubrec { pid, last_sent, .. } => {
@@ -56,6 +66,12 @@ pub(crate) fn handle_pendings(session: &mut Session) -> Vec<Packet> {
             PendingPacketStatus::Complete => unreachable!(),
         }
     }
+    for pid in &expired_packets {
+        session.pending_packets.complete(*pid, QoS::Level1);
+    }
+    if !expired_packets.is_empty() {
+        session.pending_packets.clean_complete();
+    }
     packets
 }
 
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
index 623e2d3..6c28a87 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
@@ -166,6 +166,8 @@ pub(crate) struct RecvPublish<'a> {
     pub payload: &'a Bytes,
     pub subscribe_filter: &'a TopicFilter,
     pub subscribe_qos: QoS,
+    // None for v3 publish packet
+    pub message_expiry_interval: Option<u32>,
 }
 
 // Received a publish message from client or will, then publish the message to matched clients
@@ -281,6 +283,7 @@ pub(crate) fn recv_publish(
                 qos: final_qos,
                 retain: msg.retain,
                 payload: msg.payload.clone(),
+                message_expiry_interval: msg.message_expiry_interval,
             },
         ) {
             // TODO: pending messages queue is full
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs b/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
index 7b93ce7..7ea74e9 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
@@ -48,6 +48,10 @@ packet id : {}
                     payload: &msg.payload,
                     subscribe_filter: filter,
                     subscribe_qos: granted_qos,
+                    message_expiry_interval: msg
+                        .properties
+                        .as_ref()
+                        .and_then(|properties| properties.message_expiry_interval),
                 },
             ) {
                 if let Some(packet) = packet_opt {
diff --git a/akasa-core/src/protocols/mqtt/v3/session.rs b/akasa-core/src/protocols/mqtt/v3/session.rs
index 6917054..1b963c1 100644
--- a/akasa-core/src/protocols/mqtt/v3/session.rs
+++ b/akasa-core/src/protocols/mqtt/v3/session.rs
@@ -104,4 +104,6 @@ pub struct PubPacket {
     pub qos: QoS,
     pub retain: bool,
     pub payload: Bytes,
+    // from a v5 publisher
+    pub message_expiry_interval: Option<u32>,
 }
-- 
2.43.0


From f0036ee8f63f44de0eef85b65b98d95a3d398b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:09 +0000
Subject: [PATCH 47/48] fix: send the messages behind discarded ones

Messages that expired in the queue, or are too large for the client, held
the in-flight window: what was queued behind them was sent only with the
next packet from or message to the client.
---
 .../src/protocols/mqtt/v3/packet/common.rs       | 16 ++++++++++++----
 .../src/protocols/mqtt/v5/packet/common.rs       | 16 ++++++++++++----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/packet/common.rs b/akasa-core/src/protocols/mqtt/v3/packet/common.rs
index f678678..6c775f7 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/common.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/common.rs
@@ -20,8 +20,15 @@ pub(crate) fn after_handle_packet(session: &mut Session) -> Vec<Packet> {
 
 #[inline]
 pub(crate) fn handle_pendings(session: &mut Session) -> Vec<Packet> {
-    session.pending_packets.clean_complete();
     let mut packets = Vec::new();
+    // discarded packets make room for the ones behind them
+    while collect_pendings(session, &mut packets) {}
+    packets
+}
+
+/// Return if any packet is discarded
+fn collect_pendings(session: &mut Session, packets: &mut Vec<Packet>) -> bool {
+    session.pending_packets.clean_complete();
     let mut expired_packets = Vec::new();
     let mut start_idx = 0;
     while let Some((idx, packet_status)) = session.pending_packets.get_ready_packet(start_idx) {
@@ -69,10 +76,11 @@ pub(crate) fn handle_pendings(session: &mut Session) -> Vec<Packet> {
     for pid in &expired_packets {
         session.pending_packets.complete(*pid, QoS::Level1);
     }
-    if !expired_packets.is_empty() {
-        session.pending_packets.clean_complete();
+    if expired_packets.is_empty() {
+        return false;
     }
-    packets
+    session.pending_packets.clean_complete();
+    true
 }
 
 #[inline]
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/common.rs b/akasa-core/src/protocols/mqtt/v5/packet/common.rs
index 06d522c..bb4a088 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/common.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/common.rs
@@ -185,6 +185,14 @@ pub(super) fn use_topic_alias(
 
 #[inline]
 pub(crate) fn handle_pendings(session: &mut Session) -> Vec<Packet> {
+    let mut packets = Vec::new();
+    // discarded packets make room for the ones behind them
+    while collect_pendings(session, &mut packets) {}
+    packets
+}
+
+/// Return if any packet is discarded
+fn collect_pendings(session: &mut Session, packets: &mut Vec<Packet>) -> bool {
     let topic_alias_max = session.topic_alias_max;
     let max_packet_size = session.max_packet_size;
     let (pending_packets, aliases_by_topic, aliases_by_alias, tick) = (
@@ -195,7 +203,6 @@ pub(crate) fn handle_pendings(session: &mut Session) -> Vec<Packet> {
     );
 
     pending_packets.clean_complete();
-    let mut packets = Vec::new();
     let mut expired_packets = Vec::new();
     let mut start_idx = 0;
     while let Some((idx, packet_status)) = pending_packets.get_ready_packet(start_idx) {
@@ -270,10 +277,11 @@ pub(crate) fn handle_pendings(session: &mut Session) -> Vec<Packet> {
         // If the QoS2 message exipred, it's MUST also treated as QoS1 message
         pending_packets.complete(*pid, QoS::Level1);
     }
-    if !expired_packets.is_empty() {
-        pending_packets.clean_complete();
+    if expired_packets.is_empty() {
+        return false;
     }
-    packets
+    pending_packets.clean_complete();
+    true
 }
 
 #[inline]
-- 
2.43.0


From 255fd1465c8455030fd72589f8abc0c5b247c3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:12 +0000
Subject: [PATCH 48/48] fix: retained messages expire

A retained message with an expiry interval was sent to every new
subscriber for ever, with the interval it was published with. It is now
sent with what remains of the interval, and not at all afterwards.
---
 akasa-core/src/protocols/mqtt/retain.rs            | 14 ++++++++++++++
 .../src/protocols/mqtt/v3/packet/subscribe.rs      |  9 +++++----
 .../src/protocols/mqtt/v5/packet/subscribe.rs      | 10 +++++++++-
 3 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/retain.rs b/akasa-core/src/protocols/mqtt/retain.rs
index 185a798..10f5348 100644
--- a/akasa-core/src/protocols/mqtt/retain.rs
+++ b/akasa-core/src/protocols/mqtt/retain.rs
@@ -8,6 +8,7 @@ use mqtt_proto::{
 };
 use parking_lot::RwLock;
 
+use super::get_unix_ts;
 use super::route::split_topic;
 
 #[derive(Debug, Default)]
@@ -30,6 +31,8 @@ pub struct RetainContent {
     pub payload: Bytes,
     pub properties: Option<PublishProperties>,
     pub encode_len: usize,
+    // when the message expiry interval is over, unix timestamp as seconds
+    expires_at: Option<u64>,
 }
 
 impl RetainTable {
@@ -166,6 +169,10 @@ impl RetainContent {
         properties: Option<PublishProperties>,
         encode_len: usize,
     ) -> RetainContent {
+        let expires_at = properties
+            .as_ref()
+            .and_then(|properties| properties.message_expiry_interval)
+            .map(|value| get_unix_ts() + value as u64);
         RetainContent {
             client_identifier,
             qos,
@@ -173,8 +180,15 @@ impl RetainContent {
             payload,
             properties,
             encode_len,
+            expires_at,
         }
     }
+
+    /// The remaining message expiry interval, 0 when the message is expired.
+    pub fn message_expiry_interval(&self) -> Option<u32> {
+        self.expires_at
+            .map(|ts| ts.saturating_sub(get_unix_ts()) as u32)
+    }
 }
 
 #[cfg(test)]
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs b/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
index 7ea74e9..9445631 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
@@ -39,6 +39,10 @@ packet id : {}
 
         let mut process_pendings = false;
         for msg in global.retain_table.get_matches(filter) {
+            let message_expiry_interval = msg.message_expiry_interval();
+            if message_expiry_interval == Some(0) {
+                continue;
+            }
             if let Some((final_qos, packet_opt)) = recv_publish(
                 session,
                 RecvPublish {
@@ -48,10 +52,7 @@ packet id : {}
                     payload: &msg.payload,
                     subscribe_filter: filter,
                     subscribe_qos: granted_qos,
-                    message_expiry_interval: msg
-                        .properties
-                        .as_ref()
-                        .and_then(|properties| properties.message_expiry_interval),
+                    message_expiry_interval,
                 },
             ) {
                 if let Some(packet) = packet_opt {
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs b/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs
index bf5e76f..e19626f 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs
@@ -101,6 +101,14 @@ packet id : {}
                         if sub_opts.no_local && msg.client_identifier == session.client_identifier {
                             continue;
                         }
+                        let message_expiry_interval = msg.message_expiry_interval();
+                        if message_expiry_interval == Some(0) {
+                            continue;
+                        }
+                        let properties = msg.properties.clone().map(|mut properties| {
+                            properties.message_expiry_interval = message_expiry_interval;
+                            properties
+                        });
                         let retain = sub_opts.retain_as_published;
                         if let Some((final_qos, packet_opt)) = recv_publish(
                             session,
@@ -111,7 +119,7 @@ packet id : {}
                                 payload: &msg.payload,
                                 subscription_ids: SubscriptionIds::Lookup(filter),
                                 subscribe_qos: granted_qos,
-                                properties: msg.properties.as_ref(),
+                                properties: properties.as_ref(),
                             },
                         ) {
                             if let Some(packet) = packet_opt {
-- 
2.43.0

