From 162901aaa433d0ff4436317732cff536b0bc6d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:31 +0000
Subject: [PATCH 1/9] fix: release the undergoing request key when a request
 handler panics

A handler panic unwound past the statement that removes the request key, so
the same peer could never again have a request with that identifier handled.
Release the key from a guard's destructor instead.
---
 radius/src/server.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/radius/src/server.rs b/radius/src/server.rs
index ac891d4..5d06991 100644
--- a/radius/src/server.rs
+++ b/radius/src/server.rs
@@ -202,15 +202,19 @@ impl<X, E: Debug, T: RequestHandler<X, E>, U: SecretProvider> Server<X, E, T, U>
             ip: remote_addr.to_string(),
             identifier: packet.get_identifier(),
         };
-        let key_for_remove = key.clone();
 
         {
             let mut undergoing_requests = undergoing_requests_lock.write().unwrap();
             if undergoing_requests.contains(&key) {
                 return;
             }
-            undergoing_requests.insert(key);
+            undergoing_requests.insert(key.clone());
         }
+        // This releases the key when the request handling has been finished, even if the handler panics.
+        let _undergoing_request = UndergoingRequest {
+            lock: undergoing_requests_lock,
+            key,
+        };
 
         match request_handler
             .handle_radius_request(
@@ -224,9 +228,6 @@ impl<X, E: Debug, T: RequestHandler<X, E>, U: SecretProvider> Server<X, E, T, U>
                 println!("{e:?}");
             }
         }
-
-        let mut undergoing_requests = undergoing_requests_lock.write().unwrap();
-        undergoing_requests.remove(&key_for_remove);
     }
 }
 
@@ -264,3 +265,17 @@ struct RequestKey {
     ip: String,
     identifier: u8,
 }
+
+/// UndergoingRequest keeps a request marked as undergoing as long as this value lives.
+struct UndergoingRequest {
+    lock: Arc<RwLock<HashSet<RequestKey>>>,
+    key: RequestKey,
+}
+
+impl Drop for UndergoingRequest {
+    fn drop(&mut self) {
+        if let Ok(mut undergoing_requests) = self.lock.write() {
+            undergoing_requests.remove(&self.key);
+        }
+    }
+}
-- 
2.43.0


From af417fadccc10e967892cc089557394072060a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:59 +0000
Subject: [PATCH 2/9] fix: verify the response authenticator in the client

send_packet() returned any decodable datagram as the response, whether or not
it was made for this request by a holder of the shared secret.
---
 radius/src/client.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/radius/src/client.rs b/radius/src/client.rs
index d7c3097..06f7638 100644
--- a/radius/src/client.rs
+++ b/radius/src/client.rs
@@ -121,6 +121,12 @@ impl Client {
             None => self.request(&conn, &request_data, remote_addr).await,
         }?;
 
+        if !Packet::is_authentic_response(&response, &request_data, request_packet.get_secret()) {
+            return Err(ClientError::FailedDecodingRadiusResponseError(
+                "response authenticator is invalid".to_owned(),
+            ));
+        }
+
         match Packet::decode(&response.to_vec(), request_packet.get_secret()) {
             Ok(response_packet) => Ok(response_packet),
             Err(e) => Err(ClientError::FailedDecodingRadiusResponseError(format!(
-- 
2.43.0


From 8e5c2bee37539ebcca38304c4fe5d6b58839212c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:59 +0000
Subject: [PATCH 3/9] fix: don't truncate the packet size to 16 bits before the
 limit check

With more than 65515 bytes of attributes the 16-bit computation overflowed, so
encoding panicked (debug) or produced a packet with a wrong length (release).
---
 radius/src/core/packet.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/radius/src/core/packet.rs b/radius/src/core/packet.rs
index a42e806..b3e4e7c 100644
--- a/radius/src/core/packet.rs
+++ b/radius/src/core/packet.rs
@@ -288,15 +288,15 @@ impl Packet {
             Err(e) => return Err(e),
         };
 
-        let size = RADIUS_PACKET_HEADER_LENGTH as u16 + encoded_avp.len() as u16;
-        if size as usize > MAX_PACKET_LENGTH {
+        let size = RADIUS_PACKET_HEADER_LENGTH + encoded_avp.len();
+        if size > MAX_PACKET_LENGTH {
             return Err("packet is too large".to_owned());
         }
 
         let mut bs: Vec<u8> = Vec::new();
         bs.push(self.code as u8);
         bs.push(self.identifier);
-        bs.extend(u16::to_be_bytes(size).to_vec());
+        bs.extend(u16::to_be_bytes(size as u16).to_vec());
         bs.extend(self.authenticator.to_vec());
         bs.extend(match self.attributes.encode() {
             Ok(encoded) => encoded,
-- 
2.43.0


From e0ee06e914844c7b5c78c42fde0d3064136083fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:23 +0000
Subject: [PATCH 4/9] fix: ignore padding beyond the packet length in
 authenticity checks

RFC 2865 section 3: octets outside the range of the Length field MUST be
treated as padding and ignored on reception. Packet::decode() did so, but the
authenticity checks hashed the padding too and so refused such packets.
---
 radius/src/core/packet.rs | 43 ++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/radius/src/core/packet.rs b/radius/src/core/packet.rs
index b3e4e7c..eee59ac 100644
--- a/radius/src/core/packet.rs
+++ b/radius/src/core/packet.rs
@@ -305,13 +305,27 @@ impl Packet {
         Ok(bs)
     }
 
+    /// Returns the bytes of a packet without the padding, i.e. the bytes outside of the range of the length field.
+    /// If the length field is invalid, this returns `None`.
+    fn strip_padding(bs: &[u8]) -> Option<&[u8]> {
+        if bs.len() < RADIUS_PACKET_HEADER_LENGTH {
+            return None;
+        }
+        let len = u16::from_be_bytes([bs[2], bs[3]]) as usize;
+        if len < RADIUS_PACKET_HEADER_LENGTH {
+            return None;
+        }
+        bs.get(..len)
+    }
+
     #[cfg(feature = "md5")]
     /// Returns whether the Packet is authentic response or not.
     pub fn is_authentic_response(response: &[u8], request: &[u8], secret: &[u8]) -> bool {
-        if response.len() < RADIUS_PACKET_HEADER_LENGTH
-            || request.len() < RADIUS_PACKET_HEADER_LENGTH
-            || secret.is_empty()
-        {
+        let response = match Self::strip_padding(response) {
+            Some(response) => response,
+            None => return false,
+        };
+        if request.len() < RADIUS_PACKET_HEADER_LENGTH || secret.is_empty() {
             return false;
         }
 
@@ -331,10 +345,11 @@ impl Packet {
     #[cfg(feature = "openssl")]
     /// Returns whether the Packet is authentic response or not.
     pub fn is_authentic_response(response: &[u8], request: &[u8], secret: &[u8]) -> bool {
-        if response.len() < RADIUS_PACKET_HEADER_LENGTH
-            || request.len() < RADIUS_PACKET_HEADER_LENGTH
-            || secret.is_empty()
-        {
+        let response = match Self::strip_padding(response) {
+            Some(response) => response,
+            None => return false,
+        };
+        if request.len() < RADIUS_PACKET_HEADER_LENGTH || secret.is_empty() {
             return false;
         }
 
@@ -356,7 +371,11 @@ impl Packet {
     #[cfg(feature = "md5")]
     /// Returns whether the Packet is authentic request or not.
     pub fn is_authentic_request(request: &[u8], secret: &[u8]) -> bool {
-        if request.len() < RADIUS_PACKET_HEADER_LENGTH || secret.is_empty() {
+        let request = match Self::strip_padding(request) {
+            Some(request) => request,
+            None => return false,
+        };
+        if secret.is_empty() {
             return false;
         }
 
@@ -383,7 +402,11 @@ impl Packet {
     #[cfg(feature = "openssl")]
     /// Returns whether the Packet is authentic request or not.
     pub fn is_authentic_request(request: &[u8], secret: &[u8]) -> bool {
-        if request.len() < RADIUS_PACKET_HEADER_LENGTH || secret.is_empty() {
+        let request = match Self::strip_padding(request) {
+            Some(request) => request,
+            None => return false,
+        };
+        if secret.is_empty() {
             return false;
         }
 
-- 
2.43.0


From 21693ee15ccde7aa1eab12d0cd43a0b336648765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:23 +0000
Subject: [PATCH 5/9] fix: report write failures at the end of code generation

Dropping a BufWriter ignores errors of the final write, so a full disk left
truncated modules behind with a successful exit status.
---
 code-generator/src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code-generator/src/main.rs b/code-generator/src/main.rs
index 08adeca..9fbd2dc 100644
--- a/code-generator/src/main.rs
+++ b/code-generator/src/main.rs
@@ -151,6 +151,7 @@ fn main() {
             &radius_attribute_to_values_map,
             &attribute_name_to_rfc_name,
         );
+        w.flush().unwrap();
 
         for attr in &radius_attributes {
             attribute_name_to_rfc_name.insert(attr.name.clone(), rfc_name.to_owned());
-- 
2.43.0


From fe0d4c9b744da2931afffd06b7fbb8860da8a1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:47 +0000
Subject: [PATCH 6/9] fix: keep zero bytes within a decoded password

Decoding cut a user-password or tunnel-password at its first zero byte instead
of removing the trailing padding only, so a password with a zero byte inside
was read as its prefix.
---
 radius/src/core/avp.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/radius/src/core/avp.rs b/radius/src/core/avp.rs
index b0fac66..da164f7 100644
--- a/radius/src/core/avp.rs
+++ b/radius/src/core/avp.rs
@@ -745,10 +745,10 @@ impl AVP {
         }
 
         // remove trailing zero bytes
-        match dec.split(|b| *b == 0).next() {
-            Some(dec) => Ok(dec.to_vec()),
-            None => Ok(vec![]),
+        while dec.last() == Some(&0) {
+            dec.pop();
         }
+        Ok(dec)
     }
 
     #[cfg(feature = "openssl")]
@@ -798,10 +798,10 @@ impl AVP {
         }
 
         // remove trailing zero bytes
-        match dec.split(|b| *b == 0).next() {
-            Some(dec) => Ok(dec.to_vec()),
-            None => Ok(vec![]),
+        while dec.last() == Some(&0) {
+            dec.pop();
         }
+        Ok(dec)
     }
 
     /// (This method is for dictionary developers) encode an AVP into date value.
@@ -872,10 +872,10 @@ impl AVP {
         }
 
         // remove trailing zero bytes
-        match dec.split(|b| *b == 0).next() {
-            Some(dec) => Ok((dec.to_vec(), tag)),
-            None => Ok((vec![], tag)),
+        while dec.last() == Some(&0) {
+            dec.pop();
         }
+        Ok((dec, tag))
     }
 
     #[cfg(feature = "openssl")]
@@ -931,10 +931,10 @@ impl AVP {
         }
 
         // remove trailing zero bytes
-        match dec.split(|b| *b == 0).next() {
-            Some(dec) => Ok((dec.to_vec(), tag)),
-            None => Ok((vec![], tag)),
+        while dec.last() == Some(&0) {
+            dec.pop();
         }
+        Ok((dec, tag))
     }
 }
 
-- 
2.43.0


From 5a2da71343d229f98123cad70568d374c17a5742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:40 +0000
Subject: [PATCH 7/9] fix: refuse tunnel passwords that are too long when they
 are added

The limit of 240 bytes was checked against the request authenticator
instead of the plain text, so an over-long tunnel password was accepted
and could neither be read back nor sent.
---
 radius/src/core/avp.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/radius/src/core/avp.rs b/radius/src/core/avp.rs
index da164f7..d74481e 100644
--- a/radius/src/core/avp.rs
+++ b/radius/src/core/avp.rs
@@ -367,10 +367,10 @@ impl AVP {
          *  https://tools.ietf.org/html/rfc2868#section-3.5
          */
 
-        if request_authenticator.len() > 240 {
+        if plain_text.len() > 240 {
             return Err(AVPError::InvalidAttributeLengthError(
                 "240 bytes".to_owned(),
-                request_authenticator.len(),
+                plain_text.len(),
             ));
         }
 
@@ -460,10 +460,10 @@ impl AVP {
          *  https://tools.ietf.org/html/rfc2868#section-3.5
          */
 
-        if request_authenticator.len() > 240 {
+        if plain_text.len() > 240 {
             return Err(AVPError::InvalidAttributeLengthError(
                 "240 bytes".to_owned(),
-                request_authenticator.len(),
+                plain_text.len(),
             ));
         }
 
-- 
2.43.0


From 18dda26948854774a076fcd5293a3548edd0eb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:36 +0000
Subject: [PATCH 8/9] fix: the prefix length of an IPv4 prefix attribute is
 counted in bits

The length octet held the number of octets (4), so that every other
implementation read the address as a /4 prefix; the IPv6 variant counts bits.
---
 radius/src/core/avp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radius/src/core/avp.rs b/radius/src/core/avp.rs
index d74481e..a287cfb 100644
--- a/radius/src/core/avp.rs
+++ b/radius/src/core/avp.rs
@@ -149,7 +149,7 @@ impl AVP {
 
         Ok(AVP {
             typ,
-            value: [vec![0x00, prefix_len as u8 & 0b00111111], prefix.to_vec()].concat::<u8>(),
+            value: [vec![0x00, (prefix_len * 8) as u8], prefix.to_vec()].concat::<u8>(),
         })
     }
 
-- 
2.43.0


From 93c0d1915635f95182f09aa8c39da62787160c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:05 +0000
Subject: [PATCH 9/9] fix: generate add_vsa_attribute for vendor-specific
 attributes

Regenerating the modules dropped rfc2865::add_vsa_attribute, which had been
added to the committed module by hand.
---
 code-generator/src/main.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/code-generator/src/main.rs b/code-generator/src/main.rs
index 9fbd2dc..c155229 100644
--- a/code-generator/src/main.rs
+++ b/code-generator/src/main.rs
@@ -183,6 +183,7 @@ use chrono::{{DateTime, Utc}};
 use crate::core::avp::{{AVP, AVPType, AVPError}};
 use crate::core::packet::Packet;
 use crate::core::tag::Tag;
+use crate::core::vsa::VSA;
 
 ",
         rfc_name = rfc_name,
@@ -372,7 +373,7 @@ fn generate_attribute_code(
             true => unimplemented!("tagged-short"),
             false => generate_short_attribute_code(w, &method_identifier, &type_identifier),
         },
-        RadiusAttributeValueType::VSA => generate_vsa_attribute_code(),
+        RadiusAttributeValueType::VSA => generate_vsa_attribute_code(w, &type_identifier),
     }
 }
 
@@ -902,8 +903,15 @@ pub fn lookup_all_{method_identifier}(packet: &Packet) -> Result<Vec<u16>, AVPEr
     w.write_all(code.as_bytes()).unwrap();
 }
 
-fn generate_vsa_attribute_code() {
-    // NOP
+fn generate_vsa_attribute_code(w: &mut BufWriter<File>, type_identifier: &str) {
+    let code = format!(
+        "/// Add `vsa_attribute` vsa value to a packet.
+pub fn add_vsa_attribute(packet: &mut Packet, value: &dyn VSA) {{
+    packet.add(AVP::from_bytes({type_identifier}, &value.message()));
+}}
+"
+    );
+    w.write_all(code.as_bytes()).unwrap();
 }
 
 type DictParsed = (Vec<RadiusAttribute>, BTreeMap<String, Vec<RadiusValue>>);
-- 
2.43.0

