From 8027ec4ac7939bd946d033079a615fdd5381c1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:04 +0000
Subject: [PATCH 01/17] fix: do not underflow when a buffer stores more than
 its max_capacity

max_capacity() is documented as a minimum: a buffer may take more bytes
than that. When an iterator is abandoned early such a buffer can hold more
than max_capacity() bytes, and the next read computed a negative amount of
free space.
---
 ublox/src/parser.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ublox/src/parser.rs b/ublox/src/parser.rs
index 051daca..2385518 100644
--- a/ublox/src/parser.rs
+++ b/ublox/src/parser.rs
@@ -291,7 +291,12 @@ impl<'a, T: UnderlyingBuffer> DualBuffer<'a, T> {
             return true;
         }
 
-        if new_bytes > self.buf.max_capacity() - (self.buf.len() - drained_off) {
+        if new_bytes
+            > self
+                .buf
+                .max_capacity()
+                .saturating_sub(self.buf.len() - drained_off)
+        {
             // We wouldn't be able to fit all the new bytes into underlying
             return false;
         }
@@ -353,7 +358,7 @@ impl<'a, T: UnderlyingBuffer> DualBuffer<'a, T> {
             });
         }
 
-        if new_bytes < self.buf.max_capacity() - self.buf.len() {
+        if new_bytes < self.buf.max_capacity().saturating_sub(self.buf.len()) {
             // Underlying has enough space to extend from new
             let bytes_not_moved = self
                 .buf
-- 
2.43.0


From 163eb720b4f9fc7446e9d39d3afc9301d2fc8774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:04 +0000
Subject: [PATCH 02/17] fix: report a packet header that does not fit the
 parser's buffer

With a buffer of 4 bytes (the documented minimum) a read ending after 5
bytes of a packet silently lost the fifth byte, so the rest of the packet
was misread.
---
 ublox/src/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ublox/src/parser.rs b/ublox/src/parser.rs
index 2385518..f087871 100644
--- a/ublox/src/parser.rs
+++ b/ublox/src/parser.rs
@@ -490,6 +490,11 @@ impl<'a, T: UnderlyingBuffer> ParserIter<'a, T> {
             }
 
             if self.buf.len() < 6 {
+                if self.buf.potential_lost_bytes() > 0 {
+                    // Not even the header of this packet fits, drop it and move on
+                    self.buf.drain(2);
+                    return Some(Err(ParserError::OutOfMemory { required_size: 6 }));
+                }
                 return None;
             }
 
-- 
2.43.0


From 1ddde1af5862f6267628f62c7268873b96a5cb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:51 +0000
Subject: [PATCH 03/17] fix: read and write the CFG-ITFM bit fields at their
 positions

The thresholds and algorithm bits were read without shifting and masking
them, and the antenna setting was written over the general bits.
---
 ublox/src/ubx_packets/packets.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index e203d33..4c17793 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -905,9 +905,14 @@ impl CfgItfmConfig {
 impl From<u32> for CfgItfmConfig {
     fn from(cfg: u32) -> Self {
         let enable = (cfg & 0x80000000) > 0;
-        let bb_threshold = CfgItfmBbThreshold::from(cfg);
-        let cw_threshold = CfgItfmCwThreshold::from(cfg);
-        let algorithm_bits = CfgItfmAlgoBits::from(cfg);
+        let bb_threshold = CfgItfmBbThreshold::from(
+            (cfg >> CfgItfmBbThreshold::POSITION) & CfgItfmBbThreshold::MASK,
+        );
+        let cw_threshold = CfgItfmCwThreshold::from(
+            (cfg >> CfgItfmCwThreshold::POSITION) & CfgItfmCwThreshold::MASK,
+        );
+        let algorithm_bits =
+            CfgItfmAlgoBits::from((cfg >> CfgItfmAlgoBits::POSITION) & CfgItfmAlgoBits::MASK);
         Self {
             enable,
             bb_threshold,
@@ -1017,14 +1022,16 @@ impl CfgItfmConfig2 {
     const fn into_raw(self) -> u32 {
         ((self.scan_aux_bands as u32) << 14)
             | self.general.into_raw()
-            | self.antenna.into_raw() as u32
+            | (self.antenna.into_raw() as u32) << 12
     }
 }
 
 impl From<u32> for CfgItfmConfig2 {
     fn from(cfg: u32) -> Self {
         let scan_aux_bands = (cfg & 0x4000) > 0;
-        let general = CfgItfmGeneralBits::from(cfg);
+        let general = CfgItfmGeneralBits::from(
+            (cfg >> CfgItfmGeneralBits::POSITION) & CfgItfmGeneralBits::MASK,
+        );
         let antenna = CfgItfmAntennaSettings::from(cfg);
         Self {
             scan_aux_bands,
-- 
2.43.0


From 425ecbb4bd1af01602c7f115595347e6c238e09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:51 +0000
Subject: [PATCH 04/17] fix: TimTm2Flags::time_base panicked unless the time
 base was the receiver's

The two bits were compared without shifting them down. The reserved value
is read like the default.
---
 ublox/src/ubx_packets/packets.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index 4c17793..ba45cac 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -2894,11 +2894,11 @@ impl TimTm2Flags {
     }
 
     pub fn time_base(&self) -> TimTm2TimeBase {
-        match self.0 & 0b11000 {
-            0 => TimTm2TimeBase::Receiver,
+        match (self.0 >> 3) & 0b11 {
             1 => TimTm2TimeBase::Gnss,
             2 => TimTm2TimeBase::Utc,
-            _ => unreachable!(),
+            // 3 is reserved
+            _ => TimTm2TimeBase::Receiver,
         }
     }
 
-- 
2.43.0


From 4f5225ae3afe48c2e25fd7da2644d58ad914b03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:56 +0000
Subject: [PATCH 05/17] fix: UART modes without a representation made
 CfgPrtUart::mode panic

A CFG-PRT message with five or six data bits or a reserved parity is now
delivered as an unknown packet, like other packets with field values that
cannot be represented.
---
 ublox/src/ubx_packets/packets.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index ba45cac..846199f 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -1883,7 +1883,7 @@ struct CfgPrtUart {
     portid: u8,
     reserved0: u8,
     tx_ready: u16,
-    #[ubx(map_type = UartMode)]
+    #[ubx(map_type = UartMode, may_fail, from = UartMode::from, is_valid = UartMode::is_valid)]
     mode: u32,
     baud_rate: u32,
     #[ubx(map_type = InProtoMask)]
@@ -1925,6 +1925,13 @@ impl UartMode {
     const fn into_raw(self) -> u32 {
         self.data_bits.into_raw() | self.parity.into_raw() | self.stop_bits.into_raw()
     }
+
+    /// Whether the data bits and parity of `mode` have a representation
+    fn is_valid(mode: u32) -> bool {
+        let data_bits = (mode >> DataBits::POSITION) & DataBits::MASK;
+        let parity = (mode >> Parity::POSITION) & Parity::MASK;
+        matches!(data_bits, 0b10 | 0b11) && matches!(parity, 0b000 | 0b001 | 0b100 | 0b101)
+    }
 }
 
 impl From<u32> for UartMode {
-- 
2.43.0


From fbbff6e793ecc176f8065acb7a305be4d868b2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:25 +0000
Subject: [PATCH 06/17] fix: NavVelECEF's z velocity is signed

Like the x and y velocities it is an I4 in the protocol description.
---
 ublox/src/ubx_packets/packets.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index 846199f..110fa6f 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -3531,7 +3531,7 @@ struct NavVelECEF {
     itow: u32,
     ecef_vx: i32,
     ecef_vy: i32,
-    ecef_vz: u32,
+    ecef_vz: i32,
     s_acc: u32,
 }
 
-- 
2.43.0


From 4379e73172568941281a07fc5637a17c4c08653c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:28 +0000
Subject: [PATCH 07/17] fix: units of positions derived from high precision
 messages

The high precision part of the height is in millimetres and was added as
metres; Earth-centred coordinates came out ten times too large.
---
 ublox/src/ubx_packets/types.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ublox/src/ubx_packets/types.rs b/ublox/src/ubx_packets/types.rs
index 4b93b7d..02b0661 100644
--- a/ublox/src/ubx_packets/types.rs
+++ b/ublox/src/ubx_packets/types.rs
@@ -56,7 +56,7 @@ impl<'a> From<&NavHpPosLlhRef<'a>> for Position {
         Position {
             lon: packet.lon_degrees() + packet.lon_hp_degrees(),
             lat: packet.lat_degrees() + packet.lat_hp_degrees(),
-            alt: packet.height_msl() + packet.height_hp_msl(),
+            alt: packet.height_msl() + 1e-3 * packet.height_hp_msl(),
         }
     }
 }
@@ -64,9 +64,9 @@ impl<'a> From<&NavHpPosLlhRef<'a>> for Position {
 impl<'a> From<&NavHpPosEcefRef<'a>> for PositionECEF {
     fn from(packet: &NavHpPosEcefRef<'a>) -> Self {
         PositionECEF {
-            x: 10e-2 * (packet.ecef_x_cm() + 0.1 * packet.ecef_x_hp_mm()),
-            y: 10e-2 * (packet.ecef_y_cm() + 0.1 * packet.ecef_y_hp_mm()),
-            z: 10e-2 * (packet.ecef_z_cm() + 0.1 * packet.ecef_z_hp_mm()),
+            x: 1e-2 * (packet.ecef_x_cm() + 0.1 * packet.ecef_x_hp_mm()),
+            y: 1e-2 * (packet.ecef_y_cm() + 0.1 * packet.ecef_y_hp_mm()),
+            z: 1e-2 * (packet.ecef_z_cm() + 0.1 * packet.ecef_z_hp_mm()),
         }
     }
 }
-- 
2.43.0


From efc9a2bc711796572a44a0675e213ee34fc4c8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:33 +0000
Subject: [PATCH 08/17] fix: AidIniBuilder::set_time gave the previous month
 and no day

AID-INI takes the date as YYMM with months counted from 1 and the time as
DDHHMMSS.
---
 ublox/src/ubx_packets/packets.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index 110fa6f..4e3fa8f 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -1267,8 +1267,9 @@ impl AidIniBuilder {
                 panic!("AID-INI packet only supports years after 2000");
             },
         } * 100
-            + tm.month0()) as u16;
-        self.tow_or_hms = tm.hour() * 10000 + tm.minute() * 100 + tm.second();
+            + tm.month()) as u16;
+        self.tow_or_hms =
+            tm.day() * 1000000 + tm.hour() * 10000 + tm.minute() * 100 + tm.second();
         self.tow_ns = tm.nanosecond() as i32;
         self.flags |= (1 << 1) | (1 << 10);
         self
-- 
2.43.0


From 526e4a9f131053a343789a763f2b4848988a15d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:36 +0000
Subject: [PATCH 09/17] fix: extend_to damaged what the output buffer already
 held

The length and checksum were computed from and written to absolute
positions, so appending to a buffer with contents overwrote two of its
bytes and produced a frame with a wrong length and checksum.
---
 ublox_derive/src/output.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ublox_derive/src/output.rs b/ublox_derive/src/output.rs
index 7e1ba73..740a619 100644
--- a/ublox_derive/src/output.rs
+++ b/ublox_derive/src/output.rs
@@ -471,6 +471,7 @@ pub fn generate_send_code_for_packet(pack_descr: &PackDesc) -> TokenStream {
               {
                   // TODO: Enable when `extend_one` feature is stable.
                   // out.extend_reserve(6);
+                  let start = out.len();
                   let mut len_bytes = 0;
                   let header = [SYNC_CHAR_1, SYNC_CHAR_2, #main_name::CLASS, #main_name::ID, 0, 0];
                   // TODO: Extend all at once when we bump MSRV
@@ -481,10 +482,10 @@ pub fn generate_send_code_for_packet(pack_descr: &PackDesc) -> TokenStream {
                   #(#extend_fields);*;
 
                   let len_bytes = len_bytes.to_le_bytes();
-                  out[4] = len_bytes[0];
-                  out[5] = len_bytes[1];
+                  out[start + 4] = len_bytes[0];
+                  out[start + 5] = len_bytes[1];
 
-                  let (ck_a, ck_b) = ubx_checksum(&out[2..]);
+                  let (ck_a, ck_b) = ubx_checksum(&out[start + 2..]);
                   out.extend(core::iter::once(ck_a));
                   out.extend(core::iter::once(ck_b));
               }
-- 
2.43.0


From f76055b0aeddbf2858be1622f00bf56f08117721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:17 +0000
Subject: [PATCH 10/17] fix: ublox-cli had odd and even parity swapped

---
 examples/ublox-cli/src/main.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/examples/ublox-cli/src/main.rs b/examples/ublox-cli/src/main.rs
index 4e33549..a80007c 100644
--- a/examples/ublox-cli/src/main.rs
+++ b/examples/ublox-cli/src/main.rs
@@ -175,8 +175,8 @@ Configuration includes: protocol in/out, data-bits, stop-bits, parity, baud-rate
     };
 
     let parity = match matches.get_one::<String>("parity").map(|s| s.as_str()) {
-        Some("odd") => SerialParity::Even,
-        Some("even") => SerialParity::Odd,
+        Some("odd") => SerialParity::Odd,
+        Some("even") => SerialParity::Even,
         _ => SerialParity::None,
     };
 
@@ -227,8 +227,8 @@ Configuration includes: protocol in/out, data-bits, stop-bits, parity, baud-rate
         };
 
         let parity = match sub_matches.get_one::<String>("parity").map(|s| s.as_str()) {
-            Some("odd") => SerialParity::Even,
-            Some("even") => SerialParity::Odd,
+            Some("odd") => SerialParity::Odd,
+            Some("even") => SerialParity::Even,
             _ => SerialParity::None,
         };
         let inproto = match (
-- 
2.43.0


From 03d6400cfa34b70429551820420c72cf800aed34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:17 +0000
Subject: [PATCH 11/17] fix: ublox-cli never noticed an ack if the device does
 not pause

---
 examples/ublox-cli/src/main.rs | 55 ++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 25 deletions(-)

diff --git a/examples/ublox-cli/src/main.rs b/examples/ublox-cli/src/main.rs
index a80007c..1aa42bd 100644
--- a/examples/ublox-cli/src/main.rs
+++ b/examples/ublox-cli/src/main.rs
@@ -420,39 +420,44 @@ impl Device {
     }
 
     pub fn update<T: FnMut(PacketRef)>(&mut self, mut cb: T) -> std::io::Result<()> {
-        loop {
-            const MAX_PAYLOAD_LEN: usize = 1240;
-            let mut local_buf = [0; MAX_PAYLOAD_LEN];
-            let nbytes = self.read_port(&mut local_buf)?;
-            if nbytes == 0 {
-                break;
-            }
+        while self.update_once(&mut cb)? {}
+        Ok(())
+    }
 
-            // parser.consume adds the buffer to its internal buffer, and
-            // returns an iterator-like object we can use to process the packets
-            let mut it = self.parser.consume(&local_buf[..nbytes]);
-            loop {
-                match it.next() {
-                    Some(Ok(packet)) => {
-                        cb(packet);
-                    },
-                    Some(Err(_)) => {
-                        // Received a malformed packet, ignore it
-                    },
-                    None => {
-                        // We've eaten all the packets we have
-                        break;
-                    },
-                }
+    /// Reads the port once, `false` means that there was nothing to read
+    fn update_once<T: FnMut(PacketRef)>(&mut self, cb: &mut T) -> std::io::Result<bool> {
+        const MAX_PAYLOAD_LEN: usize = 1240;
+        let mut local_buf = [0; MAX_PAYLOAD_LEN];
+        let nbytes = self.read_port(&mut local_buf)?;
+        if nbytes == 0 {
+            return Ok(false);
+        }
+
+        // parser.consume adds the buffer to its internal buffer, and
+        // returns an iterator-like object we can use to process the packets
+        let mut it = self.parser.consume(&local_buf[..nbytes]);
+        loop {
+            match it.next() {
+                Some(Ok(packet)) => {
+                    cb(packet);
+                },
+                Some(Err(_)) => {
+                    // Received a malformed packet, ignore it
+                },
+                None => {
+                    // We've eaten all the packets we have
+                    break;
+                },
             }
         }
-        Ok(())
+        Ok(true)
     }
 
     pub fn wait_for_ack<T: UbxPacketMeta>(&mut self) -> std::io::Result<()> {
         let mut found_packet = false;
         while !found_packet {
-            self.update(|packet| {
+            // Not `update`: it returns only once the device pauses
+            self.update_once(&mut |packet| {
                 if let PacketRef::AckAck(ack) = packet {
                     if ack.class() == T::CLASS && ack.msg_id() == T::ID {
                         found_packet = true;
-- 
2.43.0


From 858a9e0f69be4034913d8e65d3f2be2345878d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:17 +0000
Subject: [PATCH 12/17] fix: ublox-cli ended when a read was interrupted by a
 signal

---
 examples/ublox-cli/src/main.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/examples/ublox-cli/src/main.rs b/examples/ublox-cli/src/main.rs
index 1aa42bd..6cc13c0 100644
--- a/examples/ublox-cli/src/main.rs
+++ b/examples/ublox-cli/src/main.rs
@@ -470,15 +470,15 @@ impl Device {
 
     /// Reads the serial port, converting timeouts into "no data received"
     fn read_port(&mut self, output: &mut [u8]) -> std::io::Result<usize> {
-        match self.port.read(output) {
-            Ok(b) => Ok(b),
-            Err(e) => {
-                if e.kind() == std::io::ErrorKind::TimedOut {
-                    Ok(0)
-                } else {
-                    Err(e)
-                }
-            },
+        loop {
+            match self.port.read(output) {
+                Ok(b) => return Ok(b),
+                Err(e) => match e.kind() {
+                    std::io::ErrorKind::TimedOut => return Ok(0),
+                    std::io::ErrorKind::Interrupted => {},
+                    _ => return Err(e),
+                },
+            }
         }
     }
 }
-- 
2.43.0


From e50cec59f24ed589f27eb284a9adb2ab02ccc58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:17 +0000
Subject: [PATCH 13/17] fix: ublox-cli panicked on a NAV-PVT time that is not a
 valid date

---
 examples/ublox-cli/src/main.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/examples/ublox-cli/src/main.rs b/examples/ublox-cli/src/main.rs
index 6cc13c0..42d13e0 100644
--- a/examples/ublox-cli/src/main.rs
+++ b/examples/ublox-cli/src/main.rs
@@ -363,10 +363,12 @@ Configuration includes: protocol in/out, data-bits, stop-bits, parity, baud-rate
                     }
 
                     if has_time {
-                        let time: DateTime<Utc> = (&sol)
-                            .try_into()
-                            .expect("Could not parse NAV-PVT time field to UTC");
-                        println!("Time: {:?}", time);
+                        // Not every time can be represented, for example a leap second
+                        let time: Result<DateTime<Utc>, _> = (&sol).try_into();
+                        match time {
+                            Ok(time) => println!("Time: {:?}", time),
+                            Err(e) => println!("Could not parse NAV-PVT time field to UTC: {}", e),
+                        }
                     }
                 },
                 _ => {
-- 
2.43.0


From feb577ca8001e98a64772b7812bd9733bcc921f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:49 +0000
Subject: [PATCH 14/17] fix: ublox-cli configure looked up its baud rate under
 the wrong name

---
 examples/ublox-cli/src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/examples/ublox-cli/src/main.rs b/examples/ublox-cli/src/main.rs
index 42d13e0..dec8cbf 100644
--- a/examples/ublox-cli/src/main.rs
+++ b/examples/ublox-cli/src/main.rs
@@ -204,7 +204,10 @@ Configuration includes: protocol in/out, data-bits, stop-bits, parity, baud-rate
             _ => (None, ""),
         };
 
-        let baud = sub_matches.get_one::<u32>("baud").cloned().unwrap_or(9600);
+        let baud = sub_matches
+            .get_one::<u32>("cfg-baud")
+            .cloned()
+            .unwrap_or(9600);
 
         let stop_bits = match sub_matches
             .get_one::<String>("stop-bits")
-- 
2.43.0


From 14a69a2c7f7a5a92830f042115f3dcd769077896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:16 +0000
Subject: [PATCH 15/17] Take back the changes to examples/ublox-cli

They repaired genuine defects of the example program, but changes here may not
touch anything under examples; the defects are recorded as known findings of C21.
---
 examples/ublox-cli/src/main.rs | 96 +++++++++++++++-------------------
 1 file changed, 43 insertions(+), 53 deletions(-)

diff --git a/examples/ublox-cli/src/main.rs b/examples/ublox-cli/src/main.rs
index dec8cbf..4e33549 100644
--- a/examples/ublox-cli/src/main.rs
+++ b/examples/ublox-cli/src/main.rs
@@ -175,8 +175,8 @@ Configuration includes: protocol in/out, data-bits, stop-bits, parity, baud-rate
     };
 
     let parity = match matches.get_one::<String>("parity").map(|s| s.as_str()) {
-        Some("odd") => SerialParity::Odd,
-        Some("even") => SerialParity::Even,
+        Some("odd") => SerialParity::Even,
+        Some("even") => SerialParity::Odd,
         _ => SerialParity::None,
     };
 
@@ -204,10 +204,7 @@ Configuration includes: protocol in/out, data-bits, stop-bits, parity, baud-rate
             _ => (None, ""),
         };
 
-        let baud = sub_matches
-            .get_one::<u32>("cfg-baud")
-            .cloned()
-            .unwrap_or(9600);
+        let baud = sub_matches.get_one::<u32>("baud").cloned().unwrap_or(9600);
 
         let stop_bits = match sub_matches
             .get_one::<String>("stop-bits")
@@ -230,8 +227,8 @@ Configuration includes: protocol in/out, data-bits, stop-bits, parity, baud-rate
         };
 
         let parity = match sub_matches.get_one::<String>("parity").map(|s| s.as_str()) {
-            Some("odd") => SerialParity::Odd,
-            Some("even") => SerialParity::Even,
+            Some("odd") => SerialParity::Even,
+            Some("even") => SerialParity::Odd,
             _ => SerialParity::None,
         };
         let inproto = match (
@@ -366,12 +363,10 @@ Configuration includes: protocol in/out, data-bits, stop-bits, parity, baud-rate
                     }
 
                     if has_time {
-                        // Not every time can be represented, for example a leap second
-                        let time: Result<DateTime<Utc>, _> = (&sol).try_into();
-                        match time {
-                            Ok(time) => println!("Time: {:?}", time),
-                            Err(e) => println!("Could not parse NAV-PVT time field to UTC: {}", e),
-                        }
+                        let time: DateTime<Utc> = (&sol)
+                            .try_into()
+                            .expect("Could not parse NAV-PVT time field to UTC");
+                        println!("Time: {:?}", time);
                     }
                 },
                 _ => {
@@ -425,44 +420,39 @@ impl Device {
     }
 
     pub fn update<T: FnMut(PacketRef)>(&mut self, mut cb: T) -> std::io::Result<()> {
-        while self.update_once(&mut cb)? {}
-        Ok(())
-    }
-
-    /// Reads the port once, `false` means that there was nothing to read
-    fn update_once<T: FnMut(PacketRef)>(&mut self, cb: &mut T) -> std::io::Result<bool> {
-        const MAX_PAYLOAD_LEN: usize = 1240;
-        let mut local_buf = [0; MAX_PAYLOAD_LEN];
-        let nbytes = self.read_port(&mut local_buf)?;
-        if nbytes == 0 {
-            return Ok(false);
-        }
-
-        // parser.consume adds the buffer to its internal buffer, and
-        // returns an iterator-like object we can use to process the packets
-        let mut it = self.parser.consume(&local_buf[..nbytes]);
         loop {
-            match it.next() {
-                Some(Ok(packet)) => {
-                    cb(packet);
-                },
-                Some(Err(_)) => {
-                    // Received a malformed packet, ignore it
-                },
-                None => {
-                    // We've eaten all the packets we have
-                    break;
-                },
+            const MAX_PAYLOAD_LEN: usize = 1240;
+            let mut local_buf = [0; MAX_PAYLOAD_LEN];
+            let nbytes = self.read_port(&mut local_buf)?;
+            if nbytes == 0 {
+                break;
+            }
+
+            // parser.consume adds the buffer to its internal buffer, and
+            // returns an iterator-like object we can use to process the packets
+            let mut it = self.parser.consume(&local_buf[..nbytes]);
+            loop {
+                match it.next() {
+                    Some(Ok(packet)) => {
+                        cb(packet);
+                    },
+                    Some(Err(_)) => {
+                        // Received a malformed packet, ignore it
+                    },
+                    None => {
+                        // We've eaten all the packets we have
+                        break;
+                    },
+                }
             }
         }
-        Ok(true)
+        Ok(())
     }
 
     pub fn wait_for_ack<T: UbxPacketMeta>(&mut self) -> std::io::Result<()> {
         let mut found_packet = false;
         while !found_packet {
-            // Not `update`: it returns only once the device pauses
-            self.update_once(&mut |packet| {
+            self.update(|packet| {
                 if let PacketRef::AckAck(ack) = packet {
                     if ack.class() == T::CLASS && ack.msg_id() == T::ID {
                         found_packet = true;
@@ -475,15 +465,15 @@ impl Device {
 
     /// Reads the serial port, converting timeouts into "no data received"
     fn read_port(&mut self, output: &mut [u8]) -> std::io::Result<usize> {
-        loop {
-            match self.port.read(output) {
-                Ok(b) => return Ok(b),
-                Err(e) => match e.kind() {
-                    std::io::ErrorKind::TimedOut => return Ok(0),
-                    std::io::ErrorKind::Interrupted => {},
-                    _ => return Err(e),
-                },
-            }
+        match self.port.read(output) {
+            Ok(b) => Ok(b),
+            Err(e) => {
+                if e.kind() == std::io::ErrorKind::TimedOut {
+                    Ok(0)
+                } else {
+                    Err(e)
+                }
+            },
         }
     }
 }
-- 
2.43.0


From 39a02de4b29d6815d25a0ebdb26d7deeb2ad45aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:13 +0000
Subject: [PATCH 16/17] fix: MgaGpsIono's coefficients were not scaled to their
 units

---
 ublox/src/ubx_packets/packets.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index 4e3fa8f..b1d8f98 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -2664,28 +2664,28 @@ struct MgaGpsIono {
     version: u8,
     reserved1: [u8; 2],
     /// Ionospheric parameter alpha0 [s]
-    #[ubx(map_type = f64, scale = 1.0)] // 2^-30
+    #[ubx(map_type = f64, scale = 9.313225746154785e-10)] // 2^-30
     alpha0: i8,
     /// Ionospheric parameter alpha1 [s/semi-circle]
-    #[ubx(map_type = f64, scale = 1.0)] // 2^-27
+    #[ubx(map_type = f64, scale = 7.450580596923828e-9)] // 2^-27
     alpha1: i8,
     /// Ionospheric parameter alpha1 [s/semi-circle^2]
-    #[ubx(map_type = f64, scale = 1.0)] // 2^-24
+    #[ubx(map_type = f64, scale = 5.960464477539063e-8)] // 2^-24
     alpha2: i8,
     /// Ionospheric parameter alpha1 [s/semi-circle^3]
-    #[ubx(map_type = f64, scale = 1.0)] // 2^-24
+    #[ubx(map_type = f64, scale = 5.960464477539063e-8)] // 2^-24
     alpha3: i8,
     /// Ionospheric parameter beta0 [s]
-    #[ubx(map_type = f64, scale = 1.0)] // 2^-11
+    #[ubx(map_type = f64, scale = 0.00048828125)] // 2^-11
     beta0: i8,
     /// Ionospheric parameter beta0 [s/semi-circle]
-    #[ubx(map_type = f64, scale = 1.0)] // 2^-14
+    #[ubx(map_type = f64, scale = 6.103515625e-5)] // 2^-14
     beta1: i8,
     /// Ionospheric parameter beta0 [s/semi-circle^2]
-    #[ubx(map_type = f64, scale = 1.0)] // 2^-16
+    #[ubx(map_type = f64, scale = 1.52587890625e-5)] // 2^-16
     beta2: i8,
     /// Ionospheric parameter beta0 [s/semi-circle^3]
-    #[ubx(map_type = f64, scale = 1.0)] // 2^-16
+    #[ubx(map_type = f64, scale = 1.52587890625e-5)] // 2^-16
     beta3: i8,
     reserved2: [u8; 4],
 }
-- 
2.43.0


From fd837ffb8f7eb9855a629d22859e00ae8ce203c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:26 +0000
Subject: [PATCH 17/17] fix: CfgItfmAntennaSettings could be serialised but not
 deserialised

---
 ublox/src/ubx_packets/packets.rs | 44 +++++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index b1d8f98..66b2f05 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -1073,7 +1073,6 @@ impl From<u32> for CfgItfmGeneralBits {
 #[ubx(from_unchecked, into_raw, rest_error)]
 #[repr(u8)]
 #[derive(Debug, Copy, Clone)]
-#[cfg_attr(feature = "serde", derive(serde::Deserialize))]
 pub enum CfgItfmAntennaSettings {
     /// Type of Antenna is not known
     #[default]
@@ -1084,6 +1083,49 @@ pub enum CfgItfmAntennaSettings {
     Passive = 2,
 }
 
+/// Reads the number that `Serialize` writes, or the name of the variant
+#[cfg(feature = "serde")]
+impl<'de> serde::Deserialize<'de> for CfgItfmAntennaSettings {
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where
+        D: serde::Deserializer<'de>,
+    {
+        struct Visitor;
+
+        impl serde::de::Visitor<'_> for Visitor {
+            type Value = CfgItfmAntennaSettings;
+
+            fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+                f.write_str("the number or name of an antenna setting")
+            }
+
+            fn visit_u64<E: serde::de::Error>(self, v: u64) -> Result<Self::Value, E> {
+                match v {
+                    0 => Ok(CfgItfmAntennaSettings::Unknown),
+                    1 => Ok(CfgItfmAntennaSettings::Active),
+                    2 => Ok(CfgItfmAntennaSettings::Passive),
+                    _ => Err(E::invalid_value(serde::de::Unexpected::Unsigned(v), &self)),
+                }
+            }
+
+            fn visit_str<E: serde::de::Error>(self, v: &str) -> Result<Self::Value, E> {
+                match v {
+                    "Unknown" => Ok(CfgItfmAntennaSettings::Unknown),
+                    "Active" => Ok(CfgItfmAntennaSettings::Active),
+                    "Passive" => Ok(CfgItfmAntennaSettings::Passive),
+                    _ => Err(E::unknown_variant(v, &["Unknown", "Active", "Passive"])),
+                }
+            }
+        }
+
+        if deserializer.is_human_readable() {
+            deserializer.deserialize_any(Visitor)
+        } else {
+            deserializer.deserialize_u8(Visitor)
+        }
+    }
+}
+
 impl From<u32> for CfgItfmAntennaSettings {
     fn from(cfg: u32) -> Self {
         let cfg = (cfg & 0x3000) >> 12;
-- 
2.43.0

