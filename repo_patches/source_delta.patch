From 126ff0e63b2c8a97efd04040fa4671f81239a554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:01 +0000
Subject: [PATCH 01/14] fix: PositionECEF from NavHpPosEcef is in metres

The centimetre sum was multiplied by 10e-2 (0.1) instead of 1e-2.
---
 ublox/src/ubx_packets/types.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ublox/src/ubx_packets/types.rs b/ublox/src/ubx_packets/types.rs
index 4b93b7d..0005e9e 100644
--- a/ublox/src/ubx_packets/types.rs
+++ b/ublox/src/ubx_packets/types.rs
@@ -64,9 +64,9 @@ impl<'a> From<&NavHpPosLlhRef<'a>> for Position {
 impl<'a> From<&NavHpPosEcefRef<'a>> for PositionECEF {
     fn from(packet: &NavHpPosEcefRef<'a>) -> Self {
         PositionECEF {
-            x: 10e-2 * (packet.ecef_x_cm() + 0.1 * packet.ecef_x_hp_mm()),
-            y: 10e-2 * (packet.ecef_y_cm() + 0.1 * packet.ecef_y_hp_mm()),
-            z: 10e-2 * (packet.ecef_z_cm() + 0.1 * packet.ecef_z_hp_mm()),
+            x: 1e-2 * (packet.ecef_x_cm() + 0.1 * packet.ecef_x_hp_mm()),
+            y: 1e-2 * (packet.ecef_y_cm() + 0.1 * packet.ecef_y_hp_mm()),
+            z: 1e-2 * (packet.ecef_z_cm() + 0.1 * packet.ecef_z_hp_mm()),
         }
     }
 }
-- 
2.43.0


From 39ea74acd3dbb04562e9639bd8de5d98b2cc6d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:01 +0000
Subject: [PATCH 02/14] fix: Position from NavHpPosLlh adds the high-precision
 height in metres

height_hp_msl is in millimetres, it was added to metres as is.
---
 ublox/src/ubx_packets/types.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ublox/src/ubx_packets/types.rs b/ublox/src/ubx_packets/types.rs
index 0005e9e..8d07898 100644
--- a/ublox/src/ubx_packets/types.rs
+++ b/ublox/src/ubx_packets/types.rs
@@ -56,7 +56,8 @@ impl<'a> From<&NavHpPosLlhRef<'a>> for Position {
         Position {
             lon: packet.lon_degrees() + packet.lon_hp_degrees(),
             lat: packet.lat_degrees() + packet.lat_hp_degrees(),
-            alt: packet.height_msl() + packet.height_hp_msl(),
+            // `height_hp_msl` is in millimeters
+            alt: packet.height_msl() + packet.height_hp_msl() * 1e-3,
         }
     }
 }
-- 
2.43.0


From af1a8c11883c59e3876070e35f025d9b747a9875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:28 +0000
Subject: [PATCH 03/14] fix: TimTm2Flags::time_base shifts its two bits down
 before matching

Every time base other than the receiver's hit unreachable!(). The code 3
is not defined by the protocol and is reported as reserved.
---
 ublox/src/ubx_packets/packets.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index e203d33..86f8bc0 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -2887,11 +2887,11 @@ impl TimTm2Flags {
     }
 
     pub fn time_base(&self) -> TimTm2TimeBase {
-        match self.0 & 0b11000 {
+        match (self.0 >> 3) & 0b11 {
             0 => TimTm2TimeBase::Receiver,
             1 => TimTm2TimeBase::Gnss,
             2 => TimTm2TimeBase::Utc,
-            _ => unreachable!(),
+            _ => TimTm2TimeBase::Reserved,
         }
     }
 
@@ -2919,6 +2919,7 @@ pub enum TimTm2TimeBase {
     Receiver,
     Gnss,
     Utc,
+    Reserved,
 }
 
 #[ubx_packet_recv]
-- 
2.43.0


From d20078fa3129474e2eb1ab46893cd0d4a67cebac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:28 +0000
Subject: [PATCH 04/14] fix: CfgItfmConfig decodes each part from its own bits

The thresholds and the algorithm bits were all set to the whole word.
---
 ublox/src/ubx_packets/packets.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index 86f8bc0..028032a 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -905,9 +905,14 @@ impl CfgItfmConfig {
 impl From<u32> for CfgItfmConfig {
     fn from(cfg: u32) -> Self {
         let enable = (cfg & 0x80000000) > 0;
-        let bb_threshold = CfgItfmBbThreshold::from(cfg);
-        let cw_threshold = CfgItfmCwThreshold::from(cfg);
-        let algorithm_bits = CfgItfmAlgoBits::from(cfg);
+        let bb_threshold = CfgItfmBbThreshold::from(
+            (cfg >> CfgItfmBbThreshold::POSITION) & CfgItfmBbThreshold::MASK,
+        );
+        let cw_threshold = CfgItfmCwThreshold::from(
+            (cfg >> CfgItfmCwThreshold::POSITION) & CfgItfmCwThreshold::MASK,
+        );
+        let algorithm_bits =
+            CfgItfmAlgoBits::from((cfg >> CfgItfmAlgoBits::POSITION) & CfgItfmAlgoBits::MASK);
         Self {
             enable,
             bb_threshold,
-- 
2.43.0


From 924cfd823b9853af9df10db6b8be42cb75e128e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:28 +0000
Subject: [PATCH 05/14] fix: CfgItfmConfig2 keeps the antenna setting in bits
 12 and 13

It was encoded into bits 0 and 1, over the general bits, and the general
bits were decoded from the whole word.
---
 ublox/src/ubx_packets/packets.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index 028032a..436f46a 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -1022,14 +1022,16 @@ impl CfgItfmConfig2 {
     const fn into_raw(self) -> u32 {
         ((self.scan_aux_bands as u32) << 14)
             | self.general.into_raw()
-            | self.antenna.into_raw() as u32
+            | ((self.antenna.into_raw() as u32) << 12)
     }
 }
 
 impl From<u32> for CfgItfmConfig2 {
     fn from(cfg: u32) -> Self {
         let scan_aux_bands = (cfg & 0x4000) > 0;
-        let general = CfgItfmGeneralBits::from(cfg);
+        let general = CfgItfmGeneralBits::from(
+            (cfg >> CfgItfmGeneralBits::POSITION) & CfgItfmGeneralBits::MASK,
+        );
         let antenna = CfgItfmAntennaSettings::from(cfg);
         Self {
             scan_aux_bands,
-- 
2.43.0


From 4d6d9840408461df2a3511bb2a83738afa3849ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:28 +0000
Subject: [PATCH 06/14] fix: AidIniBuilder::set_time encodes the month from 1
 and the day

The protocol's fields are YYMM with months 01 to 12 and DDHHMMSS.
---
 ublox/src/ubx_packets/packets.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index 436f46a..97ed55e 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -1267,8 +1267,9 @@ impl AidIniBuilder {
                 panic!("AID-INI packet only supports years after 2000");
             },
         } * 100
-            + tm.month0()) as u16;
-        self.tow_or_hms = tm.hour() * 10000 + tm.minute() * 100 + tm.second();
+            + tm.month()) as u16;
+        self.tow_or_hms =
+            tm.day() * 1_000_000 + tm.hour() * 10000 + tm.minute() * 100 + tm.second();
         self.tow_ns = tm.nanosecond() as i32;
         self.flags |= (1 << 1) | (1 << 10);
         self
-- 
2.43.0


From 8fa12570ff1a700975dc9924b73cca3b2d25ae43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:28 +0000
Subject: [PATCH 07/14] fix: NavVelECEF::ecef_vz is signed like the other two
 components

---
 ublox/src/ubx_packets/packets.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index 97ed55e..4bdf324 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -3526,7 +3526,7 @@ struct NavVelECEF {
     itow: u32,
     ecef_vx: i32,
     ecef_vy: i32,
-    ecef_vz: u32,
+    ecef_vz: i32,
     s_acc: u32,
 }
 
-- 
2.43.0


From 0a51edab56d11bba40d1f6d593d5378faf13b534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:28 +0000
Subject: [PATCH 08/14] fix: extend_to appends a valid frame behind existing
 content

The length and the checksum were computed from the start of the
destination instead of the start of the appended frame.
---
 ublox_derive/src/output.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ublox_derive/src/output.rs b/ublox_derive/src/output.rs
index 7e1ba73..740a619 100644
--- a/ublox_derive/src/output.rs
+++ b/ublox_derive/src/output.rs
@@ -471,6 +471,7 @@ pub fn generate_send_code_for_packet(pack_descr: &PackDesc) -> TokenStream {
               {
                   // TODO: Enable when `extend_one` feature is stable.
                   // out.extend_reserve(6);
+                  let start = out.len();
                   let mut len_bytes = 0;
                   let header = [SYNC_CHAR_1, SYNC_CHAR_2, #main_name::CLASS, #main_name::ID, 0, 0];
                   // TODO: Extend all at once when we bump MSRV
@@ -481,10 +482,10 @@ pub fn generate_send_code_for_packet(pack_descr: &PackDesc) -> TokenStream {
                   #(#extend_fields);*;
 
                   let len_bytes = len_bytes.to_le_bytes();
-                  out[4] = len_bytes[0];
-                  out[5] = len_bytes[1];
+                  out[start + 4] = len_bytes[0];
+                  out[start + 5] = len_bytes[1];
 
-                  let (ck_a, ck_b) = ubx_checksum(&out[2..]);
+                  let (ck_a, ck_b) = ubx_checksum(&out[start + 2..]);
                   out.extend(core::iter::once(ck_a));
                   out.extend(core::iter::once(ck_b));
               }
-- 
2.43.0


From ce5b5f524230f1659f3ed791def7a9fabbbceaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:42 +0000
Subject: [PATCH 09/14] fix: FixedLinearBuffer refuses a single-byte read past
 its content

---
 ublox/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ublox/src/parser.rs b/ublox/src/parser.rs
index 051daca..c654dcc 100644
--- a/ublox/src/parser.rs
+++ b/ublox/src/parser.rs
@@ -108,7 +108,7 @@ impl<'a> core::ops::Index<usize> for FixedLinearBuffer<'a> {
     type Output = u8;
 
     fn index(&self, index: usize) -> &Self::Output {
-        &self.buffer[index]
+        &self.buffer[..self.len][index]
     }
 }
 
-- 
2.43.0


From 0ebf676191df77bbf7b71cbaa696ef3875a82dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:42 +0000
Subject: [PATCH 10/14] fix: draining more than a Vec buffer holds empties it

---
 ublox/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ublox/src/parser.rs b/ublox/src/parser.rs
index c654dcc..a1a1026 100644
--- a/ublox/src/parser.rs
+++ b/ublox/src/parser.rs
@@ -71,7 +71,7 @@ impl UnderlyingBuffer for Vec<u8> {
     }
 
     fn drain(&mut self, count: usize) {
-        self.drain(0..count);
+        self.drain(0..count.min(self.len()));
     }
 
     fn find(&self, value: u8) -> Option<usize> {
-- 
2.43.0


From 94c5041d4097136969f1e34d62b379fbd6cacf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:52 +0000
Subject: [PATCH 11/14] fix: packet parts behind a size_fn field are read at
 their own offset

---
 ublox_derive/src/input.rs  | 11 +++++++++++
 ublox_derive/src/output.rs |  9 ++++-----
 ublox_derive/src/types.rs  | 10 ++++++++--
 3 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/ublox_derive/src/input.rs b/ublox_derive/src/input.rs
index 28df6cb..1ae65df 100644
--- a/ublox_derive/src/input.rs
+++ b/ublox_derive/src/input.rs
@@ -37,6 +37,17 @@ pub fn parse_packet_description(
         ));
     }
 
+    if let Some(field) = fields
+        .iter()
+        .skip_while(|f| f.size_bytes.is_some())
+        .find(|f| f.size_bytes.is_some())
+    {
+        return Err(Error::new(
+            field.name.span(),
+            "Field of fixed size after a field of variable size",
+        ));
+    }
+
     let ret = PackDesc {
         name,
         header,
diff --git a/ublox_derive/src/output.rs b/ublox_derive/src/output.rs
index 740a619..e268ee9 100644
--- a/ublox_derive/src/output.rs
+++ b/ublox_derive/src/output.rs
@@ -144,6 +144,7 @@ pub fn generate_recv_code_for_packet(pack_descr: &PackDesc) -> TokenStream {
         } else {
             assert!(field_index == pack_descr.fields.len() - 1 || f.size_fn().is_some());
 
+            let field_start = quote! { #off #(+ #ref_name(payload).#size_fns())* };
             let range = if let Some(size_fn) = f.size_fn() {
                 let range = quote! {
                     {
@@ -154,7 +155,7 @@ pub fn generate_recv_code_for_packet(pack_descr: &PackDesc) -> TokenStream {
                 size_fns.push(size_fn);
                 range
             } else {
-                quote! { #off.. }
+                quote! { #off #(+ self.#size_fns())* .. }
             };
 
             let mut get_value_lines = vec![quote! { &self.0[#range] }];
@@ -170,7 +171,7 @@ pub fn generate_recv_code_for_packet(pack_descr: &PackDesc) -> TokenStream {
                 if f.map.convert_may_fail {
                     let is_valid_fn = &out_ty.is_valid_fn;
                     field_validators.push(quote! {
-                        let val = &payload[#off..];
+                        let val = &payload[#field_start ..];
                         if !#is_valid_fn(val) {
                             return Err(ParserError::InvalidField{
                                 packet: #pack_name,
@@ -223,9 +224,7 @@ pub fn generate_recv_code_for_packet(pack_descr: &PackDesc) -> TokenStream {
                 #size;
             }
         } else {
-            let size = pack_descr
-                .packet_payload_size_except_size_fn()
-                .unwrap_or_default();
+            let size = pack_descr.packet_payload_size_except_size_fn();
             quote! {
                 {
                     if got < #size {
diff --git a/ublox_derive/src/types.rs b/ublox_derive/src/types.rs
index 777fdcd..ace6d66 100644
--- a/ublox_derive/src/types.rs
+++ b/ublox_derive/src/types.rs
@@ -20,8 +20,14 @@ impl PackDesc {
         PackDesc::fields_size(self.fields.iter().rev().skip(1))
     }
 
-    pub fn packet_payload_size_except_size_fn(&self) -> Option<usize> {
-        PackDesc::fields_size(self.fields.iter().filter(|f| f.size_fn().is_none()))
+    /// size of all parts whose size is known from the declaration
+    pub fn packet_payload_size_except_size_fn(&self) -> usize {
+        PackDesc::fields_size(
+            self.fields
+                .iter()
+                .filter(|f| f.size_fn().is_none() && f.size_bytes.is_some()),
+        )
+        .unwrap_or_default()
     }
 
     fn fields_size<'a, I: Iterator<Item = &'a PackField>>(iter: I) -> Option<usize> {
-- 
2.43.0


From 4e0649edcb99001a38c96c21d1abf1654f5ff284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:53 +0000
Subject: [PATCH 12/14] fix: refuse a max_payload_len smaller than the fixed
 part of the packet

---
 ublox_derive/src/input.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ublox_derive/src/input.rs b/ublox_derive/src/input.rs
index 1ae65df..6adcb39 100644
--- a/ublox_derive/src/input.rs
+++ b/ublox_derive/src/input.rs
@@ -55,6 +55,19 @@ pub fn parse_packet_description(
         fields,
     };
 
+    if let PayloadLen::Max(max) = ret.header.payload_len {
+        let least = ret.packet_payload_size_except_size_fn();
+        if least > usize::from(max) {
+            return Err(Error::new(
+                main_sp,
+                format!(
+                    "Fields need at least {} bytes, but max_payload_len is {}",
+                    least, max
+                ),
+            ));
+        }
+    }
+
     if ret.header.payload_len.fixed().map(usize::from) == ret.packet_payload_size() {
         Ok(ret)
     } else {
-- 
2.43.0


From 9c0a99e1e04f4b0cd7cf1f4f35590ed7f27a4398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:10 +0000
Subject: [PATCH 13/14] fix: refuse a repeated ubx attribute instead of
 ignoring the second one

---
 ublox_derive/src/input.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/ublox_derive/src/input.rs b/ublox_derive/src/input.rs
index 6adcb39..b8bc8bd 100644
--- a/ublox_derive/src/input.rs
+++ b/ublox_derive/src/input.rs
@@ -217,6 +217,15 @@ pub fn parse_idents_list(input: proc_macro2::TokenStream) -> syn::Result<RecvPac
     syn::parse2(input)
 }
 
+fn find_ubx_attr(attrs: &[Attribute]) -> syn::Result<Option<&Attribute>> {
+    let mut ubx_attrs = attrs.iter().filter(|a| a.path.is_ident("ubx"));
+    let attr = ubx_attrs.next();
+    match ubx_attrs.next() {
+        Some(dup) => Err(Error::new(dup.span(), "Duplicate ubx attribute")),
+        None => Ok(attr),
+    }
+}
+
 fn parse_ubx_extend_attrs(
     ubx_extend_name: &str,
     item_sp: Span,
@@ -226,9 +235,7 @@ fn parse_ubx_extend_attrs(
     Option<UbxTypeIntoFn>,
     Option<UbxEnumRestHandling>,
 )> {
-    let attr = attrs
-        .iter()
-        .find(|a| a.path.is_ident("ubx"))
+    let attr = find_ubx_attr(attrs)?
         .ok_or_else(|| Error::new(item_sp, format!("No ubx attribute for {}", ubx_extend_name)))?;
     let meta = attr.parse_meta()?;
     let mut from_fn = None;
@@ -282,15 +289,12 @@ fn parse_ubx_extend_attrs(
 }
 
 fn parse_ubx_attr(attrs: &[Attribute], struct_name: &Ident) -> syn::Result<PackHeader> {
-    let attr = attrs
-        .iter()
-        .find(|a| a.path.is_ident("ubx"))
-        .ok_or_else(|| {
-            Error::new(
-                struct_name.span(),
-                format!("No ubx attribute for struct {}", struct_name),
-            )
-        })?;
+    let attr = find_ubx_attr(attrs)?.ok_or_else(|| {
+        Error::new(
+            struct_name.span(),
+            format!("No ubx attribute for struct {}", struct_name),
+        )
+    })?;
     let meta = attr.parse_meta()?;
     let meta = match meta {
         syn::Meta::List(x) => x,
-- 
2.43.0


From 70b71ad7bc40c986edce6ef3d7d45cd0f69d031b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:40 +0000
Subject: [PATCH 14/14] fix: refuse every second mapping attribute of a field

An attribute holding only may_fail or get_as_ref was dropped silently when
another attribute followed it.
---
 ublox_derive/src/input.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/ublox_derive/src/input.rs b/ublox_derive/src/input.rs
index b8bc8bd..6f1104b 100644
--- a/ublox_derive/src/input.rs
+++ b/ublox_derive/src/input.rs
@@ -434,18 +434,19 @@ fn parse_fields(fields: Fields) -> syn::Result<Vec<PackField>> {
 
         let name = name.ok_or_else(|| Error::new(f_sp, "No field name"))?;
         let comment = extract_item_comment(&attrs)?;
-        let mut map = PackFieldMap::default();
+        let mut map = None;
         for a in attrs {
             if !a.path.is_ident("doc") {
-                if !map.is_none() {
+                if map.is_some() {
                     return Err(Error::new(
                         a.span(),
                         "Two map attributes for the same field",
                     ));
                 }
-                map = a.parse_args::<PackFieldMap>()?;
+                map = Some(a.parse_args::<PackFieldMap>()?);
             }
         }
+        let map = map.unwrap_or_default();
 
         if let Some(ref map_ty) = map.map_type {
             if map_ty.ty == ty {
@@ -492,12 +493,6 @@ pub struct PackFieldMap {
     pub get_as_ref: bool,
 }
 
-impl PackFieldMap {
-    fn is_none(&self) -> bool {
-        self.map_type.is_none() && self.scale.is_none() && self.alias.is_none()
-    }
-}
-
 pub struct MapType {
     pub ty: Type,
     pub from_fn: Option<TokenStream>,
-- 
2.43.0

