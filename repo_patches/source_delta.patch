From 67766decb9c2cfad43875c89e2100f8de84eada4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:49 +0000
Subject: [PATCH 01/37] fix: tunnelling request length overflows for a huge
 cEMI payload

---
 src/packets/tunneling.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packets/tunneling.rs b/src/packets/tunneling.rs
index 7b2ca92..5f899d1 100644
--- a/src/packets/tunneling.rs
+++ b/src/packets/tunneling.rs
@@ -27,7 +27,7 @@ impl TunnelingRequest {
 
     pub fn packet(&self) -> Vec<u8> {
         let mut packet = vec![0x06, 0x10, 0x04, 0x20];
-        packet.write_u16::<BigEndian>(10 + self.cemi.len() as u16).unwrap();
+        packet.write_u16::<BigEndian>((10 + self.cemi.len()) as u16).unwrap();
         packet.write_u8(4).unwrap();
         packet.write_u8(self.communication_channel_id).unwrap();
         packet.write_u8(self.sequence_nr).unwrap();
-- 
2.43.0


From dc5efe45f09d6b2449151d61b5b415b18cdb39e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:49 +0000
Subject: [PATCH 02/37] fix: tunnelling request decoder panics on a length
 below 10 and pads truncated cEMI

---
 src/packets/tunneling.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/packets/tunneling.rs b/src/packets/tunneling.rs
index 5f899d1..5d1bed1 100644
--- a/src/packets/tunneling.rs
+++ b/src/packets/tunneling.rs
@@ -73,8 +73,9 @@ impl TunnelingRequest {
             Err(e) => whatever!("Unable to read padding {:?}", e),
         };
 
+        ensure_whatever!(size >= 10, "Packet size should be at least 10 instead of {}", size);
         let mut cemi = vec![0; size as usize - 10];
-        if let Err(e) = packet_reader.read(&mut cemi) {
+        if let Err(e) = packet_reader.read_exact(&mut cemi) {
             whatever!("Unable to read cemi part {:?}", e);
         }
 
-- 
2.43.0


From 970b64ccb9d97ca1fc198a5e718c79fc245bf948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:49 +0000
Subject: [PATCH 03/37] fix: feature response is encoded with the feature set
 code and without its status

---
 src/packets/tunneling.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/packets/tunneling.rs b/src/packets/tunneling.rs
index 5d1bed1..3eaf05b 100644
--- a/src/packets/tunneling.rs
+++ b/src/packets/tunneling.rs
@@ -207,13 +207,13 @@ pub struct FeatureResp {
 
 impl FeatureResp {
     pub fn packet(&self) -> Vec<u8> {
-        let mut packet = vec![0x06, 0x10, 0x04, 0x24, 0, 0x0d];
+        let mut packet = vec![0x06, 0x10, 0x04, 0x23, 0, 0x0d];
         packet.write_u8(4).unwrap();
         packet.write_u8(self.communication_channel_id).unwrap();
         packet.write_u8(self.sequence_nr).unwrap();
         packet.write_u8(0).unwrap();
         packet.write_u8(self.feature as u8).unwrap();
-        packet.write_u8(0).unwrap();
+        packet.write_u8(self.status).unwrap();
         packet.write_u8(self.value).unwrap();
         packet
     }
-- 
2.43.0


From 6a7312cb141c05f6ebe743cc657fa8785220b993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:49 +0000
Subject: [PATCH 04/37] fix: L_Data request panics for payloads whose APDU
 length is a multiple of 256

---
 src/packets/emi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packets/emi.rs b/src/packets/emi.rs
index e606324..28dbfd1 100644
--- a/src/packets/emi.rs
+++ b/src/packets/emi.rs
@@ -174,7 +174,7 @@ impl LDataReqMessage {
         packet.write_u16::<BigEndian>(self.dest_address.to_u16()).unwrap();
 
         let mut tpdu_packet = self.tpdu.packet();
-        packet.write_u8(tpdu_packet.len() as u8 - 1).unwrap(); // Count of APCI values
+        packet.write_u8((tpdu_packet.len() - 1) as u8).unwrap(); // Count of APCI values
         packet.append(&mut tpdu_packet);
 
         packet
-- 
2.43.0


From fc10535e0fd12e98f8fca8259d0df1bffc35e23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:49 +0000
Subject: [PATCH 05/37] fix: cEMI decoder overflows on long additional infos
 and pads truncated ones

---
 src/packets/emi.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/packets/emi.rs b/src/packets/emi.rs
index 28dbfd1..c6303ea 100644
--- a/src/packets/emi.rs
+++ b/src/packets/emi.rs
@@ -204,8 +204,8 @@ impl CEMI {
         };
 
         let mut additional_infos = Vec::new();
-        let mut position = 0;
-        while position < additional_infos_size {
+        let mut position = 0usize;
+        while position < additional_infos_size as usize {
             let additional_info_type: CEMIAdditionalInfoType = match packet_reader.read_u8() {
                 Ok(info_type) => match info_type.try_into() {
                     Ok(t) => t,
@@ -219,7 +219,7 @@ impl CEMI {
             };
 
             let mut additional_info = vec![0; additional_info_size as usize];
-            if let Err(e) = packet_reader.read(&mut additional_info) {
+            if let Err(e) = packet_reader.read_exact(&mut additional_info) {
                 whatever!("Unable to read additional info {:?}", e);
             }
 
@@ -227,7 +227,7 @@ impl CEMI {
                 info_type: additional_info_type,
                 value: additional_info,
             });
-            position += additional_info_size + 2;
+            position += additional_info_size as usize + 2;
         }
 
         let mut service_info = Vec::new();
-- 
2.43.0


From f20c185aaf1784b68395f63b26be71a5bcecba6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:49 +0000
Subject: [PATCH 06/37] fix: L_Data indication decoder pads a truncated value
 with zeros

---
 src/packets/emi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packets/emi.rs b/src/packets/emi.rs
index c6303ea..bf3f70a 100644
--- a/src/packets/emi.rs
+++ b/src/packets/emi.rs
@@ -114,7 +114,7 @@ impl LDataInd {
 
         let mut value = vec![0; length as usize];
         if length > 0 {
-            if let Err(e) = reader.read(&mut value) {
+            if let Err(e) = reader.read_exact(&mut value) {
                 whatever!("Unable to read value of length {}, {:?}", length, e);
             }
         } else {
-- 
2.43.0


From 437c45548d10060a7016f7252e124b297c5c5072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:49 +0000
Subject: [PATCH 07/37] fix: small group value write panics on an empty payload

---
 src/packets/apdu.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packets/apdu.rs b/src/packets/apdu.rs
index 2d50caf..ea489d6 100644
--- a/src/packets/apdu.rs
+++ b/src/packets/apdu.rs
@@ -28,7 +28,7 @@ impl APDU {
     }
 
     pub fn group_value_write(data: Vec<u8>, small: bool) -> Self {
-        let data = if small { APDUData::Small(data[0]) } else { APDUData::Big(data) };
+        let data = if small { APDUData::Small(*data.first().unwrap_or(&0)) } else { APDUData::Big(data) };
         Self {
             apci: APCI::a_group_value_write(),
             data,
-- 
2.43.0


From de0ae80dd77cc0cf60d04ba1661e632b82311198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:49 +0000
Subject: [PATCH 08/37] fix: supported service families decoder panics on a
 structure length below 2

---
 src/packets/core.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index 92a0169..3d5a9a4 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -1072,6 +1072,7 @@ impl SupportedServiceFamiliesDIB {
     }
 
     pub fn from_packet(packet_reader: &mut Cursor<&[u8]>, structure_length: u8) -> Result<Self, Whatever> {
+        ensure_whatever!(structure_length >= 2, "Structure length should be at least 2 instead of {}", structure_length);
         let mut service_families = Vec::new();
         for _ in 0..(structure_length - 2) / 2 {
             // -2 because of length and type
-- 
2.43.0


From 6a6ce1a3d08abbf6204ecfc19716b92e15dafb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:49 +0000
Subject: [PATCH 09/37] fix: KNX addresses block holds 16-bit individual
 addresses and its decoder panics on short lengths

---
 src/packets/core.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index 3d5a9a4..7d864c5 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -1214,41 +1214,40 @@ impl IpCurrentConfigDIB {
 pub struct KNXAddressesDIB {
     pub structure_length: u8,
     pub description_type_code: DescriptionTypeCode,
-    pub knx_individual_address: Ipv4Addr,
-    pub additional_individual_addresses: Vec<Ipv4Addr>,
+    pub knx_individual_address: IndividualAddress,
+    pub additional_individual_addresses: Vec<IndividualAddress>,
 }
 
 impl KNXAddressesDIB {
     pub fn packet(&self) -> Vec<u8> {
         let mut packet = Vec::new();
-        packet.extend_from_slice(&self.knx_individual_address.octets());
+        packet.write_u16::<BigEndian>(self.knx_individual_address.to_u16()).unwrap();
         for address in &self.additional_individual_addresses {
-            packet.extend_from_slice(&address.octets());
+            packet.write_u16::<BigEndian>(address.to_u16()).unwrap();
         }
         packet
     }
 
     pub fn from_packet(packet_reader: &mut Cursor<&[u8]>, structure_length: u8) -> Result<Self, Whatever> {
-        let mut knx_individual_address = [0; 4];
-        packet_reader
-            .read_exact(&mut knx_individual_address)
+        ensure_whatever!(structure_length >= 4, "Structure length should be at least 4 instead of {}", structure_length);
+        let knx_individual_address = packet_reader
+            .read_u16::<BigEndian>()
             .whatever_context("Unable to read knx individual address")?;
 
         let mut additional_individual_addresses = Vec::new();
 
         for _ in 0..(structure_length - 4) / 2 {
-            // - 1 byte structure length - 2 byte description type code  - 2 bytes knx individual address
-            let mut additional_individual_address = [0; 4];
-            packet_reader
-                .read_exact(&mut additional_individual_address)
+            // - 1 byte structure length - 1 byte description type code  - 2 bytes knx individual address
+            let additional_individual_address = packet_reader
+                .read_u16::<BigEndian>()
                 .whatever_context("Unable to read additional individual address")?;
-            additional_individual_addresses.push(Ipv4Addr::from(additional_individual_address));
+            additional_individual_addresses.push(IndividualAddress::from_u16(additional_individual_address));
         }
 
         Ok(Self {
             structure_length,
             description_type_code: DescriptionTypeCode::KNXAddresses,
-            knx_individual_address: Ipv4Addr::from(knx_individual_address),
+            knx_individual_address: IndividualAddress::from_u16(knx_individual_address),
             additional_individual_addresses,
         })
     }
-- 
2.43.0


From d93cb9950fdd07d6c6b043913f347cb1a46f309a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:49 +0000
Subject: [PATCH 10/37] fix: manufacturer data decoder counts the block header
 and id as data

---
 src/packets/core.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index 7d864c5..6ad6225 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -1274,7 +1274,9 @@ impl ManufacturerDataDIB {
     pub fn from_packet(packet_reader: &mut Cursor<&[u8]>, structure_length: u8) -> Result<Self, Whatever> {
         let knx_manufacturer_id = packet_reader.read_u16::<BigEndian>().whatever_context("Unable to read knx manufacturer id")?;
 
-        let mut manufacturer_specific_data = vec![0; structure_length as usize];
+        // - 1 byte structure length - 1 byte description type code - 2 bytes manufacturer id
+        ensure_whatever!(structure_length >= 4, "Structure length should be at least 4 instead of {}", structure_length);
+        let mut manufacturer_specific_data = vec![0; structure_length as usize - 4];
         packet_reader
             .read_exact(&mut manufacturer_specific_data)
             .whatever_context("Unable to read manufacturer specific data")?;
-- 
2.43.0


From 8741abb054d583cad3de86cbc7f7af45923fb716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:49 +0000
Subject: [PATCH 11/37] fix: disconnect request decoder does not read the
 KNXnet/IP header

---
 src/packets/core.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index 6ad6225..73bed51 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -476,13 +476,12 @@ impl DisconnectRequest {
     }
 
     pub fn from_packet(packet_reader: &mut Cursor<&[u8]>) -> Result<Self, Whatever> {
-        let header_size = match packet_reader.read_u8() {
-            Ok(header_size) => {
-                ensure_whatever!(header_size >= 8, "Header size should be at least 8 instead of {}", header_size);
-                header_size
-            }
-            Err(e) => whatever!("Unable to read header size {:?}", e),
-        };
+        let header = KnxNetIpHeader::from_packet(packet_reader)?;
+        ensure_whatever!(
+            header.service_type_identifier == 0x0209,
+            "Disconnect request should be 0x0209 instead of {:2X}",
+            header.service_type_identifier
+        );
 
         let communication_channel_id = match packet_reader.read_u8() {
             Ok(communication_channel_id) => communication_channel_id,
-- 
2.43.0


From 2245716887267cff44f8a6f26c5740f877aaec14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:49 +0000
Subject: [PATCH 12/37] fix: connection response is encoded without its total
 length

---
 src/packets/core.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index 73bed51..b8a9864 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -293,9 +293,15 @@ impl ConnectionResponse {
     }
 
     pub fn packet(&self) -> Vec<u8> {
-        let mut packet = vec![0x06, 0x10, 0x02, 0x06, 0x08, self.communication_channel_id, self.status];
-        packet.extend_from_slice(&self.data_endpoint.packet());
-        packet.extend_from_slice(&self.crd.packet());
+        let mut packet = vec![0x06, 0x10, 0x02, 0x06];
+        let data_endpoint_packet = self.data_endpoint.packet();
+        let crd_packet = self.crd.packet();
+        let size = packet.len() + 4 + data_endpoint_packet.len() + crd_packet.len();
+        packet.write_u16::<BigEndian>(size as u16).unwrap();
+        packet.write_u8(self.communication_channel_id).unwrap();
+        packet.write_u8(self.status).unwrap();
+        packet.extend_from_slice(&data_endpoint_packet);
+        packet.extend_from_slice(&crd_packet);
         packet
     }
 }
-- 
2.43.0


From 0d30fec53cfd048385457131b7b28af2f88f0d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:49 +0000
Subject: [PATCH 13/37] fix: search response is encoded without length and type
 of its description blocks

---
 src/packets/core.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index b8a9864..673ce1d 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -662,8 +662,8 @@ impl SearchResponse {
         let mut packet = vec![0x06, 0x10, 0x02, 0x02];
 
         let mut control_endpoint_packet = self.control_endpoint.packet();
-        let mut device_hardware_packet = self.device_hardware.packet();
-        let mut supported_service_families_packet = self.supported_service_families.packet();
+        let mut device_hardware_packet = DIB::DeviceInformation(self.device_hardware.clone()).packet();
+        let mut supported_service_families_packet = DIB::SupportedServiceFamilies(self.supported_service_families.clone()).packet();
         let size = packet.len() + 2 + control_endpoint_packet.len() + device_hardware_packet.len() + supported_service_families_packet.len();
 
         packet.write_u16::<BigEndian>(size as u16).unwrap();
-- 
2.43.0


From fca23acd0f857be4c627caa05d95e8aa168c5df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:49 +0000
Subject: [PATCH 14/37] fix: asking an octet value for its APDU size panics

---
 src/dp_types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dp_types.rs b/src/dp_types.rs
index 89cb7ed..f1a8b7c 100644
--- a/src/dp_types.rs
+++ b/src/dp_types.rs
@@ -300,7 +300,7 @@ impl Pdt<u8> for PdtKnxByte {
     }
 
     fn is_small(&self) -> bool {
-        todo!()
+        false
     }
 }
 
-- 
2.43.0


From 5ff0e9ccc718c8abb35c41667ea3430515f0375a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:49 +0000
Subject: [PATCH 15/37] fix: percent_v16 overflows above 327 percent

---
 src/dp_types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dp_types.rs b/src/dp_types.rs
index f1a8b7c..6b23da0 100644
--- a/src/dp_types.rs
+++ b/src/dp_types.rs
@@ -120,7 +120,7 @@ impl PdtKnxInt {
         Self {
             code: "8.010".to_string(),
             unit: "%".to_string(),
-            value: value * 100,
+            value: value.saturating_mul(100),
         }
     }
 }
-- 
2.43.0


From 564565b6f1808db9b4fbd0b94f821cfe55b72133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:49 +0000
Subject: [PATCH 16/37] fix: decoded 32-bit and 1+3-bit values report a foreign
 datapoint code

---
 src/dp_types.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dp_types.rs b/src/dp_types.rs
index 6b23da0..3e83408 100644
--- a/src/dp_types.rs
+++ b/src/dp_types.rs
@@ -370,7 +370,7 @@ impl Pdt<u32> for PdtKnxULong {
         let mut reader = Cursor::new(b);
         let value = reader.read_u32::<BigEndian>().with_whatever_context(|e| "Unable to get 4 bytes {e}")?;
         Ok(Self {
-            code: "8.x".to_string(),
+            code: "12.x".to_string(),
             value,
         })
     }
@@ -453,7 +453,7 @@ impl Pdt<u8> for PdtKnxB1U3 {
     {
         let value = b.get(0).with_whatever_context(|| "Should have at least one byte")?;
         Ok(Self {
-            code: "0.x".to_string(),
+            code: "3.x".to_string(),
             bit: (value & 8) > 0,
             step: value & 0b111,
         })
-- 
2.43.0


From f8f283699574d5403ac613b0324d870c28ce01b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:02 +0000
Subject: [PATCH 17/37] fix: two octet float decoder panics on 0x8000 and on
 exponents above 7

---
 src/dp_types.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/dp_types.rs b/src/dp_types.rs
index 3e83408..d25559e 100644
--- a/src/dp_types.rs
+++ b/src/dp_types.rs
@@ -252,16 +252,10 @@ fn bytes_to_float(bytes: &[u8]) -> Result<f32, Whatever> {
         Err(e) => whatever!("Wrong bytes count, {:?}", e),
     });
     let sign = if value & 0x8000 > 0 { -1f32 } else { 1f32 };
-    let mut exp = ((value & 0b0111_1000_0000_0000) >> 11) as i16;
-    if (exp & 8) > 0 {
-        exp -= 1;
-        exp ^= 0xf;
-        exp += -1;
-    }
+    let exp = (value & 0b0111_1000_0000_0000) >> 11;
     let mut mantissa = value & 0x07ff;
     if sign < 0.0 {
-        mantissa -= 1;
-        mantissa ^= 0x7ff;
+        mantissa = 0x800 - mantissa;
     }
     let mantissa: f32 = mantissa as f32 * sign;
     Ok((0.01 * mantissa) * (1 << exp) as f32)
-- 
2.43.0


From 44449d67e60eb065704283a530b8b5e03367db3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:02 +0000
Subject: [PATCH 18/37] fix: two octet float encoder never ends for huge values
 and loses 20.48 and -0.004

---
 src/dp_types.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/dp_types.rs b/src/dp_types.rs
index d25559e..2f9fd84 100644
--- a/src/dp_types.rs
+++ b/src/dp_types.rs
@@ -228,18 +228,18 @@ fn _float_to_bytes(value: f32) -> Vec<u8> {
 fn calimero_float_to_bytes(v: f32) -> Vec<u8> {
     let mut v = v * 100.0;
     let mut exp = 0;
-    while v < -2048.0 {
+    while v < -2048.0 && exp < 15 {
         v /= 2.0;
         exp += 1;
     }
-    while v > 2048.0 {
+    while v > 2047.0 && exp < 15 {
         v /= 2.0;
         exp += 1;
     }
 
-    let m = v.round() as i16 & 0x7ff;
-    let mut msb: u8 = (exp << 3 | m >> 8) as u8;
-    if v < 0.0 {
+    let m = v.round().clamp(-2048.0, 2047.0) as i16;
+    let mut msb: u8 = (exp << 3 | (m & 0x7ff) >> 8) as u8;
+    if m < 0 {
         msb |= 0x80;
     }
     let lsb = (m & 0xff) as u8;
-- 
2.43.0


From 15a9c0f959ad360ccfbaa88e83ceba6b5058eb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:02 +0000
Subject: [PATCH 19/37] fix: two level group addresses are 5/11 bits wide and
 out of range address text is accepted

---
 src/packets/addresses.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/packets/addresses.rs b/src/packets/addresses.rs
index 6676108..42b092a 100644
--- a/src/packets/addresses.rs
+++ b/src/packets/addresses.rs
@@ -1,6 +1,6 @@
 use std::fmt;
 
-use snafu::{whatever, Whatever};
+use snafu::{ensure_whatever, whatever, Whatever};
 
 // KNX Address
 //
@@ -21,7 +21,7 @@ impl KnxAddress {
         Self::Group1Level(Group1LevelAddress { main })
     }
 
-    pub fn group_2_level(main: u8, sub: u8) -> Self {
+    pub fn group_2_level(main: u8, sub: u16) -> Self {
         Self::Group2Level(Group2LevelAddress { main, sub })
     }
 
@@ -64,10 +64,11 @@ impl TryFrom<&str> for KnxAddress {
                     Err(e) => whatever!("Unable to parse main address {:?}", e),
                 };
                 let sub = parts.get(1).unwrap();
-                let sub = match sub.parse::<u8>() {
+                let sub = match sub.parse::<u16>() {
                     Ok(sub) => sub,
                     Err(e) => whatever!("Unable to parse sub address {:?}", e),
                 };
+                ensure_whatever!(main <= 31 && sub <= 2047, "Group address {} out of range 31/2047", value);
 
                 Ok(Self::group_2_level(main, sub))
             } else if parts.len() == 3 {
@@ -87,6 +88,8 @@ impl TryFrom<&str> for KnxAddress {
                     Err(e) => whatever!("Unable to parse sub address {:?}", e),
                 };
 
+                ensure_whatever!(main <= 31 && mid <= 7, "Group address {} out of range 31/7/255", value);
+
                 Ok(Self::group_3_level(main, mid, sub))
             } else {
                 whatever!("Unable to parse group address {:?}, parts should be 1 to 3", value)
@@ -144,6 +147,7 @@ impl TryFrom<&str> for IndividualAddress {
             Ok(a) => a,
             Err(e) => whatever!("Unable to parse address value {:?}, error {:?}", parts.get(2), e),
         };
+        ensure_whatever!(area <= 15 && line <= 15, "Individual address {} out of range 15.15.255", value);
         Ok(Self { area, line, address })
     }
 }
@@ -177,7 +181,7 @@ impl TryFrom<&str> for Group3LevelAddress {
         }
 
         match (parts[0].parse::<u8>(), parts[1].parse::<u8>(), parts[2].parse::<u8>()) {
-            (Ok(main), Ok(middle), Ok(sub)) => Ok(Self { main, middle, sub }),
+            (Ok(main), Ok(middle), Ok(sub)) if main <= 31 && middle <= 7 => Ok(Self { main, middle, sub }),
             _ => whatever!("Unable to parse parts in u8"),
         }
     }
@@ -207,7 +211,7 @@ impl Group3LevelAddress {
 
 pub struct Group2LevelAddress {
     main: u8,
-    sub: u8,
+    sub: u16,
 }
 
 impl fmt::Debug for Group2LevelAddress {
@@ -219,8 +223,8 @@ impl fmt::Debug for Group2LevelAddress {
 impl Group2LevelAddress {
     pub fn to_u16(&self) -> u16 {
         let mut addr = 0u16;
-        addr |= (self.main as u16) << 8_u16;
-        addr |= (self.sub) as u16;
+        addr |= (self.main as u16) << 11_u16;
+        addr |= self.sub;
 
         addr
     }
-- 
2.43.0


From c426fe5ecf83307082fcad76b8a75df0bb1acb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:57 +0000
Subject: [PATCH 20/37] fix: messages are decoded from the whole receive buffer
 instead of the received datagram

---
 src/transport/udp.rs         | 19 ++++++++++++-------
 src/transport/udp_monitor.rs |  5 ++++-
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 9142dea..027ff29 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -225,8 +225,9 @@ impl UdpTransport {
         };
 
         let mut resp = vec![0; 100];
-        if let Err(e) = self.socket.recv(&mut resp).await {
-            whatever!("Connectionstate not responded {:?}", e);
+        match self.socket.recv(&mut resp).await {
+            Ok(count) => resp.truncate(count),
+            Err(e) => whatever!("Connectionstate not responded {:?}", e),
         }
         debug!("Connectiostate response {:0x?}", resp);
         let mut cursor = Cursor::new(resp.as_slice());
@@ -298,9 +299,10 @@ impl UdpTransport {
             select! {
                 n_bytes = socket.recv(&mut buffer) => {
                     match n_bytes {
-                        Ok(_n_bytes) => {
-                            debug!("Search response {:0x?}", buffer);
-                            let mut cursor = Cursor::new(buffer.as_slice());
+                        Ok(n_bytes) => {
+                            let response = &buffer[..n_bytes];
+                            debug!("Search response {:0x?}", response);
+                            let mut cursor = Cursor::new(response);
                             let resp = SearchResponse::from_packet(&mut cursor)?;
                             debug!("Parsed search response {:0x?}", resp);
                             responses.push(resp);
@@ -389,8 +391,10 @@ async fn try_connection(socket: Arc<MyUdpSocket>) -> Result<ConnectionResponse,
     }
 
     let mut resp = vec![0; 100];
-    if let Err(e) = timeout(Duration::from_secs(30), socket.recv(&mut resp)).await {
-        whatever!("Target device does not respond {:?}", e);
+    match timeout(Duration::from_secs(30), socket.recv(&mut resp)).await {
+        Ok(Ok(count)) => resp.truncate(count),
+        Ok(Err(e)) => whatever!("Unable to receive connection response {:?}", e),
+        Err(e) => whatever!("Target device does not respond {:?}", e),
     }
     debug!("Connection response {:0x?}", resp);
 
@@ -410,6 +414,7 @@ pub(crate) async fn handle_recv_from_knx_device(socket: Arc<MyUdpSocket>, from_k
         let count = socket.recv(&mut data).await.map_err(|e| format!("UPD Socket was closed {:?}", e))?;
 
         if count > 0 {
+            data.truncate(count);
             let resp = parse_response(data)?;
 
             match resp {
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index 573c883..9c4a962 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -232,7 +232,10 @@ impl UdpMonitorTransport {
         self.socket.send(&req).await.expect("Unable to send request");
 
         let mut resp = vec![0; 100];
-        self.socket.recv(&mut resp).await.expect("Unable to get response");
+        match self.socket.recv(&mut resp).await {
+            Ok(count) => resp.truncate(count),
+            Err(e) => whatever!("Unable to get response {:?}", e),
+        }
         let mut resp_cursor = Cursor::new(resp.as_slice());
 
         match DisconnectResponse::from_packet(&mut resp_cursor) {
-- 
2.43.0


From 945c5851564ec5f2bbea9e3d54b5855cfc0f0a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:58 +0000
Subject: [PATCH 21/37] fix: disconnect and search panic when a request cannot
 be sent

---
 src/transport/udp.rs         | 6 ++++--
 src/transport/udp_monitor.rs | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 027ff29..b9e6dc0 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -263,7 +263,9 @@ impl UdpTransport {
     pub async fn disconnect(&self) -> Result<(), Whatever> {
         let req = DisconnectRequest::new(self.get_communication_channel_id().await?, self.get_control_endpoint().await?).packet();
         debug!("Request disconnect for connection {}", self.get_communication_channel_id().await?);
-        self.socket.send(&req).await.expect("Unable to send request");
+        if let Err(e) = self.socket.send(&req).await {
+            whatever!("Unable to send request {:?}", e);
+        }
 
         let mut rx = self.rx.lock().await;
         match rx.recv().await {
@@ -290,7 +292,7 @@ impl UdpTransport {
         socket
             .send_to(&req, (SYSTEM_MULTICAST_ADDRESS, DISCOVERY_ENDPOINT_PORT))
             .await
-            .expect("Unable to send request");
+            .with_whatever_context(|e| format!("Unable to send request {:?}", e))?;
 
         let mut buffer = vec![0; 100];
         let mut responses = Vec::new();
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index 9c4a962..f507cb7 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -229,7 +229,9 @@ impl UdpMonitorTransport {
         let communication_channel_id = self.communication_channel_id().await?;
         let req = DisconnectRequest::new(communication_channel_id, self.control_endpoint().await?).packet();
         debug!("Request disconnect for connection {}", communication_channel_id);
-        self.socket.send(&req).await.expect("Unable to send request");
+        if let Err(e) = self.socket.send(&req).await {
+            whatever!("Unable to send request {:?}", e);
+        }
 
         let mut resp = vec![0; 100];
         match self.socket.recv(&mut resp).await {
-- 
2.43.0


From 9b465525b06ae459057b875d0ddd97a9bb2ffd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:58 +0000
Subject: [PATCH 22/37] fix: search is aborted by an invalid answer and
 prolonged by every answer

---
 src/transport/udp.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index b9e6dc0..37cfd83 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -296,6 +296,8 @@ impl UdpTransport {
 
         let mut buffer = vec![0; 100];
         let mut responses = Vec::new();
+        let deadline = sleep(timeout);
+        tokio::pin!(deadline);
 
         loop {
             select! {
@@ -305,16 +307,20 @@ impl UdpTransport {
                             let response = &buffer[..n_bytes];
                             debug!("Search response {:0x?}", response);
                             let mut cursor = Cursor::new(response);
-                            let resp = SearchResponse::from_packet(&mut cursor)?;
-                            debug!("Parsed search response {:0x?}", resp);
-                            responses.push(resp);
+                            match SearchResponse::from_packet(&mut cursor) {
+                                Ok(resp) => {
+                                    debug!("Parsed search response {:0x?}", resp);
+                                    responses.push(resp);
+                                }
+                                Err(e) => warn!("Skip invalid search response {:?}", e),
+                            }
                         },
                         Err(e) => {
                             whatever!("Unable to get response {:?}", e);
                         }
                     }
                 },
-                _ = tokio::time::sleep(timeout) => {
+                _ = &mut deadline => {
                      debug!("Search timeout received {} responses", responses.len());
                      break;
                 }
-- 
2.43.0


From 26b1bfbfc86355fb22887c785a0ddf815b98a186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:59 +0000
Subject: [PATCH 23/37] fix: a heart beat cancels the handling of a received
 telegram

---
 src/transport/udp.rs         | 7 ++++++-
 src/transport/udp_monitor.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 37cfd83..4d8f1c0 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -149,9 +149,14 @@ impl UdpTransport {
                         *connection_data = Some(ConnectionData::from_connection_response(connection));
                     }
 
+                    // The receive path must not be restarted by a heart beat, it may be
+                    // in the middle of handling a telegram
+                    //
+                    let recv = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone());
+                    tokio::pin!(recv);
                     'recv: loop {
                         tokio::select! {
-                            resp = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone()) => {
+                            resp = &mut recv => {
                                 info!("Recieve messages from knx device task exited with result {:?}", resp);
                                 if resp.is_ok() {
                                     debug!("Exit from reconnection loop");
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index f507cb7..c26491a 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -119,9 +119,14 @@ impl UdpMonitorTransport {
                         *on_connection = active_on_connection;
                     }
 
+                    // The receive path must not be restarted by a heart beat, it may be
+                    // in the middle of handling a telegram
+                    //
+                    let recv = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone());
+                    tokio::pin!(recv);
                     loop {
                         tokio::select! {
-                            resp = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone()) => {
+                            resp = &mut recv => {
                                 info!("Recieve messages from knx device task exited with result {:?}", resp);
                                 if resp.is_ok() {
                                     break 'main;
-- 
2.43.0


From f0c50092be4646982a86eb98600d19dabf03ab2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:00 +0000
Subject: [PATCH 24/37] fix: a disconnected client keeps its dead session

---
 src/transport/udp.rs         | 1 +
 src/transport/udp_monitor.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 4d8f1c0..6f3018b 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -160,6 +160,7 @@ impl UdpTransport {
                                 info!("Recieve messages from knx device task exited with result {:?}", resp);
                                 if resp.is_ok() {
                                     debug!("Exit from reconnection loop");
+                                    *connection_data.lock().await = None;
                                     break 'main;
                                 } else {
                                     break 'recv;
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index c26491a..297f57a 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -129,6 +129,7 @@ impl UdpMonitorTransport {
                             resp = &mut recv => {
                                 info!("Recieve messages from knx device task exited with result {:?}", resp);
                                 if resp.is_ok() {
+                                    *connection_data.lock().await = None;
                                     break 'main;
                                 } else {
                                     break;
-- 
2.43.0


From 5d632731f4802ad8a1398a315e6eecc491d0cb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:01 +0000
Subject: [PATCH 25/37] fix: a disconnect request of the device stops the
 client for good instead of reconnecting

---
 src/transport/udp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 6f3018b..e1cc29f 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -479,7 +479,7 @@ pub(crate) async fn handle_recv_from_knx_device(socket: Arc<MyUdpSocket>, from_k
                     if let Err(e) = socket.send(&disconnect_resp.packet()).await {
                         warn!("Unable to send disconnect response to knxip target {:?}", e);
                     }
-                    break Ok("KNX device requested disconnection".into());
+                    whatever!("KNX device requested disconnection");
                 }
             }
         }
-- 
2.43.0


From 5381ea7e3c1c950c94a147002cdfee224ab3dd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:02 +0000
Subject: [PATCH 26/37] fix: disconnect takes any telegram for its answer and
 waits for it without limit

---
 src/transport/udp.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index e1cc29f..3ef8c97 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -273,10 +273,12 @@ impl UdpTransport {
             whatever!("Unable to send request {:?}", e);
         }
 
+        // The receive task exits on the disconnect response and closes the channel
+        //
         let mut rx = self.rx.lock().await;
-        match rx.recv().await {
-            Some(_resp) => Ok(()),
-            None => whatever!("Transport closed before disconnection response"),
+        match timeout(Duration::from_secs(10), async { while rx.recv().await.is_some() {} }).await {
+            Ok(()) => Ok(()),
+            Err(_) => whatever!("Disconnect request timed out"),
         }
     }
 
-- 
2.43.0


From 5f27b0003a52d95c063e7e05f532bb2c22336894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:03 +0000
Subject: [PATCH 27/37] fix: connection status and monitor disconnect wait for
 the device without limit

---
 src/transport/udp.rs         | 7 ++++---
 src/transport/udp_monitor.rs | 9 +++++----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 3ef8c97..a1f1e0a 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -231,9 +231,10 @@ impl UdpTransport {
         };
 
         let mut resp = vec![0; 100];
-        match self.socket.recv(&mut resp).await {
-            Ok(count) => resp.truncate(count),
-            Err(e) => whatever!("Connectionstate not responded {:?}", e),
+        match timeout(Duration::from_secs(10), self.socket.recv(&mut resp)).await {
+            Ok(Ok(count)) => resp.truncate(count),
+            Ok(Err(e)) => whatever!("Connectionstate not responded {:?}", e),
+            Err(_) => whatever!("Connectionstate request timed out"),
         }
         debug!("Connectiostate response {:0x?}", resp);
         let mut cursor = Cursor::new(resp.as_slice());
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index 297f57a..67d9507 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -32,7 +32,7 @@ use std::time::Duration;
 use tokio::net::ToSocketAddrs;
 use tokio::net::UdpSocket;
 use tokio::sync::{mpsc, Mutex};
-use tokio::time::interval;
+use tokio::time::{interval, timeout};
 use tracing::instrument;
 
 struct ConnectionData {
@@ -240,9 +240,10 @@ impl UdpMonitorTransport {
         }
 
         let mut resp = vec![0; 100];
-        match self.socket.recv(&mut resp).await {
-            Ok(count) => resp.truncate(count),
-            Err(e) => whatever!("Unable to get response {:?}", e),
+        match timeout(Duration::from_secs(10), self.socket.recv(&mut resp)).await {
+            Ok(Ok(count)) => resp.truncate(count),
+            Ok(Err(e)) => whatever!("Unable to get response {:?}", e),
+            Err(_) => whatever!("Disconnect request timed out"),
         }
         let mut resp_cursor = Cursor::new(resp.as_slice());
 
-- 
2.43.0


From 999e9a1c0f286b10ff04013de8528071bc1a1e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:03 +0000
Subject: [PATCH 28/37] fix: a request may mix channel id and sequence number
 of two sessions

---
 src/transport/udp.rs         | 28 +++++++++++++++++-----------
 src/transport/udp_monitor.rs | 24 ++++++++++++++----------
 2 files changed, 31 insertions(+), 21 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index a1f1e0a..a461783 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -199,12 +199,14 @@ impl UdpTransport {
         })
     }
 
-    async fn get_next_sequence_nr(&self) -> Result<u8, Whatever> {
+    // Channel id and sequence number for the next request, both of the same connection
+    //
+    async fn get_next_sequence_nr(&self) -> Result<(u8, u8), Whatever> {
         match self.connection_data.lock().await.as_mut() {
             Some(data) => {
                 let num = data.sequence_nr;
                 data.sequence_nr = data.sequence_nr.wrapping_add(1);
-                Ok(num)
+                Ok((data.communication_channel_id, num))
             }
             None => whatever!("Disconnected from knx device, NR"),
         }
@@ -217,15 +219,18 @@ impl UdpTransport {
         }
     }
 
-    async fn get_control_endpoint(&self) -> Result<HPAI, Whatever> {
+    // Channel id and control endpoint, both of the same connection
+    //
+    async fn get_control_endpoint(&self) -> Result<(u8, HPAI), Whatever> {
         match self.connection_data.lock().await.as_ref() {
-            Some(data) => Ok(data.control_endpoint.clone()),
+            Some(data) => Ok((data.communication_channel_id, data.control_endpoint.clone())),
             None => whatever!("Disconnected from knx device, HPAI"),
         }
     }
 
     pub async fn get_connectionstate(&self) -> TransportResult<ConnectionstateResponse> {
-        let req = ConnectionstateRequest::new(self.get_communication_channel_id().await?, self.get_control_endpoint().await?);
+        let (communication_channel_id, control_endpoint) = self.get_control_endpoint().await?;
+        let req = ConnectionstateRequest::new(communication_channel_id, control_endpoint);
         if let Err(e) = self.socket.send(&req.packet()).await {
             whatever!("Unable to send connection state request {:?}", e);
         };
@@ -242,8 +247,8 @@ impl UdpTransport {
     }
 
     pub async fn tunnel_req(&self, req: Vec<u8>) -> Result<(), Whatever> {
-        let sequence_nr = self.get_next_sequence_nr().await?;
-        let tunneled_req = TunnelingRequest::new(self.get_communication_channel_id().await?, sequence_nr, req);
+        let (communication_channel_id, sequence_nr) = self.get_next_sequence_nr().await?;
+        let tunneled_req = TunnelingRequest::new(communication_channel_id, sequence_nr, req);
         debug!("TunnelingRequest {:?}", tunneled_req);
         let req = tunneled_req.packet();
         debug!("======================");
@@ -256,8 +261,8 @@ impl UdpTransport {
     }
 
     pub async fn set_feature(&self, feature: KnxIpFeature, value: u8) -> Result<(), Whatever> {
-        let sequence_nr = self.get_next_sequence_nr().await?;
-        let req = FeatureSet::new(self.get_communication_channel_id().await?, sequence_nr, feature, value);
+        let (communication_channel_id, sequence_nr) = self.get_next_sequence_nr().await?;
+        let req = FeatureSet::new(communication_channel_id, sequence_nr, feature, value);
         debug!("FeatureSet request {:?}", req);
         let req = req.packet();
         debug!("Raw tunnel request: {:02x?}", req);
@@ -268,8 +273,9 @@ impl UdpTransport {
     }
 
     pub async fn disconnect(&self) -> Result<(), Whatever> {
-        let req = DisconnectRequest::new(self.get_communication_channel_id().await?, self.get_control_endpoint().await?).packet();
-        debug!("Request disconnect for connection {}", self.get_communication_channel_id().await?);
+        let (communication_channel_id, control_endpoint) = self.get_control_endpoint().await?;
+        let req = DisconnectRequest::new(communication_channel_id, control_endpoint).packet();
+        debug!("Request disconnect for connection {}", communication_channel_id);
         if let Err(e) = self.socket.send(&req).await {
             whatever!("Unable to send request {:?}", e);
         }
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index 67d9507..e9ca820 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -183,19 +183,23 @@ impl UdpMonitorTransport {
         }
     }
 
-    async fn control_endpoint(&self) -> Result<HPAI, Whatever> {
+    // Channel id and control endpoint, both of the same connection
+    //
+    async fn control_endpoint(&self) -> Result<(u8, HPAI), Whatever> {
         match self.connection_data.lock().await.as_ref() {
-            Some(data) => Ok(data.control_endpoint.clone()),
+            Some(data) => Ok((data.communication_channel_id, data.control_endpoint.clone())),
             None => whatever!("Disconnected from knx device, HPAI"),
         }
     }
 
-    async fn get_next_sequence_nr(&self) -> Result<u8, Whatever> {
+    // Channel id and sequence number for the next request, both of the same connection
+    //
+    async fn get_next_sequence_nr(&self) -> Result<(u8, u8), Whatever> {
         match self.connection_data.lock().await.as_mut() {
             Some(data) => {
                 let num = data.sequence_nr;
                 data.sequence_nr = data.sequence_nr.wrapping_add(1);
-                Ok(num)
+                Ok((data.communication_channel_id, num))
             }
             None => whatever!("Disconnected from knx device, NR"),
         }
@@ -206,8 +210,8 @@ impl UdpMonitorTransport {
     }
 
     pub async fn set_feature(&self, feature: KnxIpFeature, value: u8) -> Result<(), Whatever> {
-        let sequence_nr = self.get_next_sequence_nr().await?;
-        let req = FeatureSet::new(self.communication_channel_id().await?, sequence_nr, feature, value);
+        let (communication_channel_id, sequence_nr) = self.get_next_sequence_nr().await?;
+        let req = FeatureSet::new(communication_channel_id, sequence_nr, feature, value);
         debug!("FeatureSet request {:?}", req);
         let req = req.packet();
         debug!("Raw tunnel request: {:02x?}", req);
@@ -218,8 +222,8 @@ impl UdpMonitorTransport {
     }
 
     pub async fn tunnel_req(&self, req: Vec<u8>) -> Result<(), Whatever> {
-        let sequence_nr = self.get_next_sequence_nr().await?;
-        let tunneled_req = TunnelingRequest::new(self.communication_channel_id().await?, sequence_nr, req);
+        let (communication_channel_id, sequence_nr) = self.get_next_sequence_nr().await?;
+        let tunneled_req = TunnelingRequest::new(communication_channel_id, sequence_nr, req);
         debug!("TunnelingRequest {:?}", tunneled_req);
         let req = tunneled_req.packet();
         debug!("======================");
@@ -232,8 +236,8 @@ impl UdpMonitorTransport {
     }
 
     pub async fn disconnect(&self) -> Result<u8, Whatever> {
-        let communication_channel_id = self.communication_channel_id().await?;
-        let req = DisconnectRequest::new(communication_channel_id, self.control_endpoint().await?).packet();
+        let (communication_channel_id, control_endpoint) = self.control_endpoint().await?;
+        let req = DisconnectRequest::new(communication_channel_id, control_endpoint).packet();
         debug!("Request disconnect for connection {}", communication_channel_id);
         if let Err(e) = self.socket.send(&req).await {
             whatever!("Unable to send request {:?}", e);
-- 
2.43.0


From 38255beb8162840714b24c4f809191b45c11a3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:31 +0000
Subject: [PATCH 29/37] fix: the client sends its heart beat with the session
 lock held

---
 src/transport/udp.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index a461783..c9caa07 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -168,19 +168,19 @@ impl UdpTransport {
                             },
                             _ = heart_beat.tick() => {
                                 info!("Send connection heart beat");
-                                match connection_data.lock().await.as_ref() {
-                                    Some(&ref data) => {
-                                        let req = ConnectionstateRequest::new(
+                                let req = match connection_data.lock().await.as_ref() {
+                                    Some(data) => {
+                                        ConnectionstateRequest::new(
                                             data.communication_channel_id,
                                             data.control_endpoint.clone(),
-                                        );
-                                        if let Err(e) = socket.send(&req.packet()).await {
-                                            warn!("Unable to send connection state request {:?}", e);
-                                            break;
-                                        };
+                                        )
                                     },
                                     None => break,
                                 };
+                                if let Err(e) = socket.send(&req.packet()).await {
+                                    warn!("Unable to send connection state request {:?}", e);
+                                    break;
+                                };
                             }
                         }
                     }
-- 
2.43.0


From f6f4d204553177494fca3127e3a8fc78581eb5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:32 +0000
Subject: [PATCH 30/37] fix: a connection listener that does not read blocks
 the monitor session and its lock

---
 src/transport/udp_monitor.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index e9ca820..13573f2 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -106,13 +106,14 @@ impl UdpMonitorTransport {
                         }
 
                         info!("Created communication channel ID {:?}", communication_channel_id);
-                        let mut connection_data = connection_data.lock().await;
-                        *connection_data = Some(ConnectionData::from_connection_response(connection));
+                        *connection_data.lock().await = Some(ConnectionData::from_connection_response(connection));
 
                         let mut active_on_connection = Vec::new();
                         let mut on_connection = on_connection.lock().await;
                         for tx in on_connection.iter() {
-                            if tx.send(()).await.is_ok() {
+                            // A listener that does not read must not stop the session
+                            //
+                            if !matches!(tx.try_send(()), Err(mpsc::error::TrySendError::Closed(_))) {
                                 active_on_connection.push(tx.clone());
                             }
                         }
-- 
2.43.0


From 4c47f620105baf86775b3edfe03862a12c2a7726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:32 +0000
Subject: [PATCH 31/37] fix: a group read takes the read request of another
 device for its answer

---
 src/packets/emi.rs   | 2 ++
 src/transport/udp.rs | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/packets/emi.rs b/src/packets/emi.rs
index bf3f70a..32eab5a 100644
--- a/src/packets/emi.rs
+++ b/src/packets/emi.rs
@@ -69,6 +69,7 @@ pub struct LData {
 pub struct LDataInd {
     pub cemi: CEMI,
     pub l_data: LData,
+    pub apci: u8,
     pub value: Vec<u8>,
 }
 
@@ -133,6 +134,7 @@ impl LDataInd {
                 system_broadcast,
                 ack_request,
             },
+            apci: apci as u8,
             value,
         })
     }
diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index c9caa07..6f349e6 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -549,7 +549,9 @@ impl UdpClient {
                 Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LDataInd as u8 => {
                     let data_ind = LDataInd::from_cemi(cemi)?;
                     debug!("Parsed indication cEMI {:?}", data_ind);
-                    if data_ind.l_data.dest == expected_addr {
+                    // Only group value response and write carry a value
+                    //
+                    if data_ind.l_data.dest == expected_addr && matches!(data_ind.apci, 1 | 2) {
                         return Ok(data_ind.value);
                     }
                 }
-- 
2.43.0


From a996a6705ff20423ea21783f85c416ddcf7946ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:33 +0000
Subject: [PATCH 32/37] fix: a group write ignores a negative confirmation and
 fails on unrelated telegrams

---
 src/transport/udp.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 6f349e6..55e3174 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -580,11 +580,12 @@ impl UdpClient {
         loop {
             match timeout(self.get_write_timeout(), rx.recv()).await {
                 Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LDataCon as u8 => {
-                    let data_con = LDataCon::from_cemi(cemi);
+                    let data_con = LDataCon::from_cemi(cemi)?;
                     debug!("Parsed confirmation cEMI {:?}", data_con);
+                    ensure_whatever!(data_con.confirm, "Write request was not confirmed by the bus");
                     return Ok(());
                 }
-                Ok(Some(cemi)) => whatever!("Unknown cEMI message code {:?}", cemi.msg_code),
+                Ok(Some(cemi)) => debug!("Skip cEMI message code {:?}", cemi.msg_code),
                 Ok(None) => whatever!("No more data will be received from client"),
                 Err(_) => whatever!("Write request timed out"),
             }
-- 
2.43.0


From 04dbb0ef38fb8698a475c6be6c94148bc7e6582d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:33 +0000
Subject: [PATCH 33/37] fix: KNX medium code of PL110 is 0x04 (03.08.02 section
 7.5.4.2)

---
 src/packets/core.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index 673ce1d..70ba312 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -903,7 +903,7 @@ impl DIB {
 #[non_exhaustive]
 pub enum KnxMedium {
     TP1 = 0x02,
-    PL110 = 0x03,
+    PL110 = 0x04,
     RF = 0x10,
     IP = 0x20,
 }
@@ -914,7 +914,7 @@ impl TryFrom<u8> for KnxMedium {
     fn try_from(value: u8) -> Result<Self, Self::Error> {
         match value {
             0x02 => Ok(Self::TP1),
-            0x03 => Ok(Self::PL110),
+            0x04 => Ok(Self::PL110),
             0x10 => Ok(Self::RF),
             0x20 => Ok(Self::IP),
             _ => whatever!("Unknown KnxMedium {}", value),
-- 
2.43.0


From 775b07890c5ffe489532ce666ff2d7c5980eb664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:26 +0000
Subject: [PATCH 34/37] fix: receive datagrams larger than 100 octets whole

---
 src/transport/udp.rs         | 12 ++++++++----
 src/transport/udp_monitor.rs |  3 ++-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 55e3174..128d315 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -23,6 +23,10 @@ use crate::packets::{
     tunneling::{TunnelingAck, TunnelingRequest},
 };
 
+// KNXnet/IP frames fit in a single datagram of this size, a smaller buffer would truncate them
+//
+pub(crate) const MAX_DATAGRAM_SIZE: usize = 512;
+
 struct ConnectionData {
     communication_channel_id: u8,
     control_endpoint: HPAI,
@@ -235,7 +239,7 @@ impl UdpTransport {
             whatever!("Unable to send connection state request {:?}", e);
         };
 
-        let mut resp = vec![0; 100];
+        let mut resp = vec![0; MAX_DATAGRAM_SIZE];
         match timeout(Duration::from_secs(10), self.socket.recv(&mut resp)).await {
             Ok(Ok(count)) => resp.truncate(count),
             Ok(Err(e)) => whatever!("Connectionstate not responded {:?}", e),
@@ -309,7 +313,7 @@ impl UdpTransport {
             .await
             .with_whatever_context(|e| format!("Unable to send request {:?}", e))?;
 
-        let mut buffer = vec![0; 100];
+        let mut buffer = vec![0; MAX_DATAGRAM_SIZE];
         let mut responses = Vec::new();
         let deadline = sleep(timeout);
         tokio::pin!(deadline);
@@ -413,7 +417,7 @@ async fn try_connection(socket: Arc<MyUdpSocket>) -> Result<ConnectionResponse,
         whatever!("Unable to send connection request {:?}", e);
     }
 
-    let mut resp = vec![0; 100];
+    let mut resp = vec![0; MAX_DATAGRAM_SIZE];
     match timeout(Duration::from_secs(30), socket.recv(&mut resp)).await {
         Ok(Ok(count)) => resp.truncate(count),
         Ok(Err(e)) => whatever!("Unable to receive connection response {:?}", e),
@@ -433,7 +437,7 @@ async fn try_connection(socket: Arc<MyUdpSocket>) -> Result<ConnectionResponse,
 
 pub(crate) async fn handle_recv_from_knx_device(socket: Arc<MyUdpSocket>, from_knx_tx: Sender<CEMI>) -> TransportResult<String> {
     loop {
-        let mut data = vec![0; 100];
+        let mut data = vec![0; MAX_DATAGRAM_SIZE];
         let count = socket.recv(&mut data).await.map_err(|e| format!("UPD Socket was closed {:?}", e))?;
 
         if count > 0 {
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index 13573f2..37e3924 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -18,6 +18,7 @@ use crate::packets::tunneling::TunnelingRequest;
 use crate::transport::udp::connect;
 use crate::transport::udp::handle_recv_from_knx_device;
 use crate::transport::udp::MyUdpSocket;
+use crate::transport::udp::MAX_DATAGRAM_SIZE;
 use log::debug;
 use log::info;
 use log::warn;
@@ -244,7 +245,7 @@ impl UdpMonitorTransport {
             whatever!("Unable to send request {:?}", e);
         }
 
-        let mut resp = vec![0; 100];
+        let mut resp = vec![0; MAX_DATAGRAM_SIZE];
         match timeout(Duration::from_secs(10), self.socket.recv(&mut resp)).await {
             Ok(Ok(count)) => resp.truncate(count),
             Ok(Err(e)) => whatever!("Unable to get response {:?}", e),
-- 
2.43.0


From a88942239a5b99e7417420a897092a579175937d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:27 +0000
Subject: [PATCH 35/37] fix: a group read or write takes telegrams received
 before its request as the answer

---
 src/transport/udp.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 128d315..6a8533a 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -542,8 +542,11 @@ impl UdpClient {
         debug!("LDataReq {:?}", req);
 
         let transport = self.transport.lock().await;
-        transport.tunnel_req(req.packet()).await?;
         let mut rx = transport.rx.lock().await;
+        // What was received before the request is not its answer
+        //
+        while rx.try_recv().is_ok() {}
+        transport.tunnel_req(req.packet()).await?;
         loop {
             match timeout(self.get_read_timeout(), rx.recv()).await {
                 Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LDataCon as u8 => {
@@ -578,9 +581,12 @@ impl UdpClient {
         debug!("LDataReq {:?}", req);
 
         let transport = self.transport.lock().await;
+        let mut rx = transport.rx.lock().await;
+        // What was received before the request is not its confirmation
+        //
+        while rx.try_recv().is_ok() {}
         transport.tunnel_req(req.packet()).await?;
         debug!("Write request sent to bus");
-        let mut rx = transport.rx.lock().await;
         loop {
             match timeout(self.get_write_timeout(), rx.recv()).await {
                 Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LDataCon as u8 => {
-- 
2.43.0


From 30358f2911ef887f05b45a834519c90a171aea26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:52 +0000
Subject: [PATCH 36/37] fix: a device friendly name shorter than 30 characters
 is refused

---
 src/packets/core.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index 70ba312..328d185 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -961,9 +961,14 @@ impl DeviceInformationDIB {
         mac_address: [u8; 6],
         friendly_name: String,
     ) -> Result<Self, Whatever> {
-        let friendly_name = ISO_8859_1
+        let mut friendly_name = ISO_8859_1
             .encode(&friendly_name, EncoderTrap::Strict)
             .whatever_context("Unable to encode device friendly name")?;
+        // Shorter names are filled up with NUL
+        //
+        if friendly_name.len() < 30 {
+            friendly_name.resize(30, 0);
+        }
         let friendly_name = friendly_name
             .try_into()
             .map_err(|_err| "")
-- 
2.43.0


From 5e31816e95d1a4f6b51e8c765da2057c28b28cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:52 +0000
Subject: [PATCH 37/37] fix: the device friendly name is returned with its
 padding

---
 src/packets/core.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index 328d185..90995c9 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -988,10 +988,11 @@ impl DeviceInformationDIB {
         })
     }
 
-    /// Device friendly name decoded from ISO 8859-1
+    /// Device friendly name decoded from ISO 8859-1, without the NULs that fill it up
     pub fn friendly_name(&self) -> Result<String, Whatever> {
+        let end = self.friendly_name.iter().position(|&c| c == 0).unwrap_or(self.friendly_name.len());
         ISO_8859_1
-            .decode(&self.friendly_name, DecoderTrap::Strict)
+            .decode(&self.friendly_name[..end], DecoderTrap::Strict)
             .whatever_context("Unable to decode friendly name")
     }
 
-- 
2.43.0

