From 01df1bd419cff03e0eede4f6d52d400ff32fbca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:10 +0000
Subject: [PATCH 001/113] verif: expose all modules to the verification harness
 under --cfg av1enc_verif

---
 src/lib.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0966ba7..23b6266 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -5,4 +5,31 @@ mod cdf;
 mod common;
 mod block;
 mod frame;
-mod sequence_header;
\ No newline at end of file
+mod sequence_header;
+
+// Verification hook (off by default): with `--cfg av1enc_verif` the library also compiles the
+// modules that otherwise only the binary has, and re-exports everything under `verif`.
+#[cfg(av1enc_verif)] #[macro_use] extern crate lazy_static;
+#[cfg(av1enc_verif)] mod option;
+#[cfg(av1enc_verif)] mod binary_reader;
+#[cfg(av1enc_verif)] mod binary_writer;
+#[cfg(av1enc_verif)] mod obu;
+#[cfg(av1enc_verif)] mod obu_encoder;
+#[cfg(av1enc_verif)] mod tile_encoder;
+#[cfg(av1enc_verif)] mod encoder;
+#[cfg(av1enc_verif)]
+pub mod verif {
+    pub mod constants { pub use constants::*; }
+    pub mod cdf { pub use cdf::*; }
+    pub mod common { pub use common::*; }
+    pub mod block { pub use block::*; }
+    pub mod frame { pub use frame::*; }
+    pub mod sequence_header { pub use sequence_header::*; }
+    pub mod option { pub use option::*; }
+    pub mod binary_reader { pub use binary_reader::*; }
+    pub mod binary_writer { pub use binary_writer::*; }
+    pub mod obu { pub use obu::*; }
+    pub mod obu_encoder { pub use obu_encoder::*; }
+    pub mod tile_encoder { pub use tile_encoder::*; }
+    pub mod encoder { pub use encoder::*; }
+}
-- 
2.43.0


From de6e632ba8f8e83834ab84721a6ed0f614f55afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:40 +0000
Subject: [PATCH 002/113] fix: start the bit count of every entropy-coded
 segment at zero

A reused coder padded later segments by the bits of earlier ones, so they
were not a whole number of bytes.
---
 src/bool_coder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 46d07fe..19e0a6c 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -137,6 +137,7 @@ impl BoolCoder {
         self.bool_value_last_zero = false;
         self.bool_value_zero_count = 0;
         self.bool_first = true;
+        self.bit_count = 0;
     }
 
     pub fn encode_symbol(&mut self, symbol: i32, out_bits: &mut Vec<u8>, cdf: &mut [i32]) {
-- 
2.43.0


From 8a5f69c4b4544a0e1bf47f2af9b3dffb3042efd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:40 +0000
Subject: [PATCH 003/113] fix: count every decoded bit once

bool_max_bits was reduced twice per bit read, so exit_decoder left part of
the segment unread.
---
 src/bool_coder.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 19e0a6c..f89eb52 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -93,7 +93,6 @@ impl BoolCoder {
         for _ in 0..(bits as i32) {
             if let Some(bit) = in_bits.pop_front() {
                 new_data = (new_data << 1) + bit as i32;
-                self.bool_max_bits -= 1;
             }
             else { assert!(false); }
         }
-- 
2.43.0


From 2acc8c56e457e7fd5936b7a3b4ba9239c4ef2e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:27 +0000
Subject: [PATCH 004/113] fix: keep the arguments after a fractional frame rate

'-r N/D' returned an empty rest, so every later option was dropped.
---
 src/option.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/option.rs b/src/option.rs
index 1d6d01f..6a78e73 100644
--- a/src/option.rs
+++ b/src/option.rs
@@ -153,7 +153,7 @@ lazy_static! {
                     if let Err(e) = CommandOption::parse_tuple::<usize>(&args[0], '/', 2, &mut [&mut numer, &mut denom]) { Err(e) }
                     else {
                         config.framerate = Some(Ratio::new(numer.unwrap(), denom.unwrap()));
-                        Ok(vec![])
+                        Ok(args[1..].to_vec())
                     }
                 }
             },
-- 
2.43.0


From 4c509c1d991a4c2684637fa1e734e2383a3e1406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:27 +0000
Subject: [PATCH 005/113] fix: report a zero frame rate denominator instead of
 panicking

---
 src/option.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/option.rs b/src/option.rs
index 6a78e73..6c9d94d 100644
--- a/src/option.rs
+++ b/src/option.rs
@@ -151,6 +151,7 @@ lazy_static! {
                 else {
                     let (mut denom, mut numer) = (None, None);
                     if let Err(e) = CommandOption::parse_tuple::<usize>(&args[0], '/', 2, &mut [&mut numer, &mut denom]) { Err(e) }
+                    else if denom == Some(0) { Err("denominator must not be zero".to_string()) }
                     else {
                         config.framerate = Some(Ratio::new(numer.unwrap(), denom.unwrap()));
                         Ok(args[1..].to_vec())
-- 
2.43.0


From abcf19351a6099c9497d30e99519ba4da58722ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:27 +0000
Subject: [PATCH 006/113] fix: report empty and non-ASCII arguments instead of
 panicking

---
 src/option.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/option.rs b/src/option.rs
index 6c9d94d..c30ae16 100644
--- a/src/option.rs
+++ b/src/option.rs
@@ -227,9 +227,9 @@ impl CommandOption {
         if args.len() == 0 { Ok(vec![]) }
         else {
             let arg = &args[0];
-            if &arg[0..1] == "-" {
+            if arg.starts_with("-") {
                 match {
-                    if &arg[1..2] == "-" { CommandOption::set_option_by_name(&arg[2..], args[1..].to_vec(), config) }
+                    if arg.starts_with("--") { CommandOption::set_option_by_name(&arg[2..], args[1..].to_vec(), config) }
                     else { CommandOption::set_option_by_short_name(&arg[1..], args[1..].to_vec(), config) }
                 } {
                     Ok(v) => CommandOption::parse(v, config),
-- 
2.43.0


From 0699c5b6d6883ffcab6747c1b36fdca7b6de6463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:27 +0000
Subject: [PATCH 007/113] fix: fill the whole plane unless the input ends

A single read returns at most what is buffered, so planes were left
partly zero at buffer boundaries and on pipes.
---
 src/binary_reader.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/binary_reader.rs b/src/binary_reader.rs
index e115f83..b28b4e4 100644
--- a/src/binary_reader.rs
+++ b/src/binary_reader.rs
@@ -27,15 +27,19 @@ impl<'a> BinaryReader<'a> {
     pub fn read_to_vec<T: From<u8>>(&mut self, v: &mut Vec<T>) -> io::Result<usize> {
         let len = v.len();
         let mut tmp: Vec<u8> = vec![0; len];
-        match self.input.read(&mut tmp[..]) {
-            Ok(s) => {
-                for i in 0..len {
-                    v[i] = T::from(tmp[i]);
-                }
-                Ok(s)
-            },
-            Err(e) => Err(e)
+        let mut s = 0;
+        while s < len {
+            match self.input.read(&mut tmp[s..]) {
+                Ok(0) => break,
+                Ok(n) => s += n,
+                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {},
+                Err(e) => return Err(e)
+            }
         }
+        for i in 0..len {
+            v[i] = T::from(tmp[i]);
+        }
+        Ok(s)
     }
 }
 
-- 
2.43.0


From 631d3a6b54009bdf717ce10991dd65e58c542329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:27 +0000
Subject: [PATCH 008/113] fix: keep the version banner out of standard output

With '-o stdout' it became part of the bitstream.
---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 1c4b99e..b9cb094 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -42,7 +42,7 @@ use encoder::*;
 
 fn main() {
 
-    println!(
+    eprintln!(
         "{} version {} Copyright (c) 2018-2018 {}",
         env!("CARGO_PKG_NAME").to_string(),
         env!("CARGO_PKG_VERSION").to_string(),
-- 
2.43.0


From 4919e2adce9c7cc42978b19c7d5b182c370eaf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:27 +0000
Subject: [PATCH 009/113] fix: exit with a failure status on errors

---
 src/main.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index b9cb094..8aa5b91 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -57,11 +57,11 @@ fn main() {
     CommandOption::init_config(&mut config);
     if let Err(e) = CommandOption::parse(args, &mut config) {
         println!("{}: failed to parse command-line arguments: {}", "error".red(), e);
-        process::exit(0);
+        process::exit(1);
     }
     if let Err(e) = CommandOption::validate_config(&config) {
         println!("{}: invalid configuration: {}", "error".red(), e);
-        process::exit(0);
+        process::exit(1);
     }
 
     // initialize binary reader
@@ -74,7 +74,7 @@ fn main() {
             Ok(f) => f,
             Err(e) => {
                 println!("{}: failed to open input file: {}", "error".red(), e);
-                process::exit(0);
+                process::exit(1);
             }
         }
     };
@@ -89,7 +89,7 @@ fn main() {
             Ok(f) => f,
             Err(e) => {
                 println!("{}: failed to open output file: {}", "error".red(), e);
-                process::exit(0);
+                process::exit(1);
             }
         }
     };
-- 
2.43.0


From ee30fdea73c3be192f254c31d2ff18a3f50709dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:27 +0000
Subject: [PATCH 010/113] fix: read frames of the requested size

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 8aa5b91..b98b126 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -101,7 +101,7 @@ fn main() {
     let mut obu_encoder = OBUEncoder::new(&ectx, &mut writer, &mut coder);
 
     for fr in 0..config.frames.unwrap() {
-        let mut frame = Frame::new(FrameType::KEY_FRAME, 176, 144);
+        let mut frame = Frame::new(FrameType::KEY_FRAME, config.frame_width.unwrap(), config.frame_height.unwrap());
         if let Err(_) = reader.read_to_vec(&mut frame.original_y) { process::exit(0); }
         if let Err(_) = reader.read_to_vec(&mut frame.original_u) { process::exit(0); }
         if let Err(_) = reader.read_to_vec(&mut frame.original_v) { process::exit(0); }
-- 
2.43.0


From 09cdce90825cb8e9d4e05f009ac6c2bff5d607f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:27 +0000
Subject: [PATCH 011/113] fix: stop at the end of the input

The frame loop went on for the maximum number of frames, encoding frames
that were never read.
---
 src/main.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index b98b126..b205a11 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -102,9 +102,17 @@ fn main() {
 
     for fr in 0..config.frames.unwrap() {
         let mut frame = Frame::new(FrameType::KEY_FRAME, config.frame_width.unwrap(), config.frame_height.unwrap());
-        if let Err(_) = reader.read_to_vec(&mut frame.original_y) { process::exit(0); }
-        if let Err(_) = reader.read_to_vec(&mut frame.original_u) { process::exit(0); }
-        if let Err(_) = reader.read_to_vec(&mut frame.original_v) { process::exit(0); }
+        let mut complete = true;
+        for plane in vec![&mut frame.original_y, &mut frame.original_u, &mut frame.original_v] {
+            match reader.read_to_vec(plane) {
+                Ok(n) => complete &= n == plane.len(),
+                Err(e) => {
+                    println!("{}: failed to read input: {}", "error".red(), e);
+                    process::exit(1);
+                }
+            }
+        }
+        if !complete { break; }
 
         if fr==0 {
             // encode sequence header
-- 
2.43.0


From 6e3a9833ac54868745212b63ff17e045b0a88f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:27 +0000
Subject: [PATCH 012/113] fix: report output that cannot be written

---
 src/main.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index b205a11..0322c1c 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -124,4 +124,9 @@ fn main() {
             
         }
     }
+    drop(obu_encoder);
+    if let Err(e) = writer.flush() {
+        println!("{}: failed to write output: {}", "error".red(), e);
+        process::exit(1);
+    }
 }
-- 
2.43.0


From 0184921e5ffa99591614531cb23d14d0f4168b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:27 +0000
Subject: [PATCH 013/113] fix: round the chroma planes of odd-sized frames up

---
 src/frame.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frame.rs b/src/frame.rs
index 857cd30..b5dd7d2 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -252,8 +252,8 @@ impl Frame {
             tile_groups: vec![0],
 
             original_y: vec![0; width as usize * height as usize],
-            original_u: vec![0; width as usize * height as usize / 4],
-            original_v: vec![0; width as usize * height as usize / 4],
+            original_u: vec![0; ((width + 1) / 2) * ((height + 1) / 2)],
+            original_v: vec![0; ((width + 1) / 2) * ((height + 1) / 2)],
 
             mis: vec![vec![None; width as usize / 4]; height as usize / 4],
             decoder_model_info: None,
-- 
2.43.0


From f7c01a310a216eaa0c13792032b3c18c9df157ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:18 +0000
Subject: [PATCH 014/113] fix: put the OBU payload inside its temporal unit and
 count sizes in bytes

The payload was written ahead of the size fields that should cover it, and
the size fields counted bits.
---
 src/obu_encoder.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 9797d9c..0128d60 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1580,22 +1580,22 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
         if obu.obu_has_size_field {
             let obu_size = obu_payload_bits.len();
         }*/
-        self.writer.write_bits(&obu_payload_bits);
-        self.writer.byte_align();
+        self.coder.push_bits(out_bits, &obu_payload_bits);
+        self.coder.push_bits_align(out_bits);
     }
 
     pub fn encode_temporal_unit(&mut self, mut obu: &mut OBU) -> () {
         let mut obu_bits = vec![];
         self.encode_obu(&mut obu, &mut obu_bits);
-        let obu_length = obu_bits.len();
+        let obu_length = obu_bits.len() / 8;
         let mut frame_unit_bits = vec![];
         self.coder.encode_leb128(&mut frame_unit_bits, obu_length as u64);
         self.coder.push_bits(&mut frame_unit_bits, &obu_bits);
-        let frame_unit_size = frame_unit_bits.len();
+        let frame_unit_size = frame_unit_bits.len() / 8;
         let mut temporal_unit_bits = vec![];
         self.coder.encode_leb128(&mut temporal_unit_bits, frame_unit_size as u64);
         self.coder.push_bits(&mut temporal_unit_bits, &frame_unit_bits);
-        let temporal_unit_size = temporal_unit_bits.len();
+        let temporal_unit_size = temporal_unit_bits.len() / 8;
         let mut temporal_unit_size_bits = vec![];
         self.coder.encode_leb128(&mut temporal_unit_size_bits, temporal_unit_size as u64);
 
-- 
2.43.0


From 2c3e18db90645d091ba30a11f5ef2f21facb6af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:18 +0000
Subject: [PATCH 015/113] fix: end OBUs with the trailing one bit

---
 src/obu_encoder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 0128d60..536d245 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1581,6 +1581,10 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
             let obu_size = obu_payload_bits.len();
         }*/
         self.coder.push_bits(out_bits, &obu_payload_bits);
+        match obu {
+            &mut OBU_TILE_GROUP(_) | &mut OBU_FRAME { frame: _ } => {},
+            _ => if obu_payload_bits.len()>0 { self.coder.push_bit(out_bits, 1); } // trailing_one_bit
+        }
         self.coder.push_bits_align(out_bits);
     }
 
-- 
2.43.0


From 6520675ef3d24068abd236a44360f58102147053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:18 +0000
Subject: [PATCH 016/113] fix: announce the width the frame size limits are
 written with

The announced bit counts were one short and computed from other values than
the ones the size fields used, and sizes of 1 panicked.
---
 src/obu_encoder.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 536d245..dc75766 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -112,12 +112,10 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         }
                     }
                 }
-                let frame_width_bits_minus_1 = msb16((sequence_header.frame_width-1) as u16) - 1;
-                let frame_height_bits_minus_1 = msb16((sequence_header.frame_height-1) as u16) - 1;
+                let frame_width_bits_minus_1 = msb16((sequence_header.max_frame_width-1) as u16);
+                let frame_height_bits_minus_1 = msb16((sequence_header.max_frame_height-1) as u16);
                 self.coder.push_bits_with_size(out_bits, frame_width_bits_minus_1 as u32, 4);
                 self.coder.push_bits_with_size(out_bits, frame_height_bits_minus_1 as u32, 4);
-                let frame_width_bits_minus_1 = msb16(sequence_header.max_frame_width as u16) - 1;
-                let frame_height_bits_minus_1 = msb16(sequence_header.max_frame_height as u16) - 1;
                 let nw = frame_width_bits_minus_1 + 1;
                 let nh = frame_height_bits_minus_1 + 1;
                 let max_frame_width_minus_1 = sequence_header.max_frame_width - 1;
-- 
2.43.0


From f0a63c4b7ce99e0d4324d134232e4035e4210752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:18 +0000
Subject: [PATCH 017/113] fix: write operating_points_cnt_minus_1

The count itself was written, so a decoder expected one operating point
more. A sequence has at least one; the default one is unconstrained.
---
 src/obu_encoder.rs     | 3 +--
 src/sequence_header.rs | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index dc75766..2e62813 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -100,8 +100,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                 if ecx.reduced_still_picture_header {
                     // TODO
                 } else {
-                    // FIXME
-                    self.coder.push_bits_with_size(out_bits, sequence_header.operating_points.len() as u32, 5);
+                    self.coder.push_bits_with_size(out_bits, (sequence_header.operating_points.len()-1) as u32, 5);
                     for op in sequence_header.operating_points.iter() {
                         self.coder.push_bits_with_size(out_bits, op.idc as u32, 12);
                         self.coder.push_bits_with_size(out_bits, op.seq_level_idx as u32, 5);
diff --git a/src/sequence_header.rs b/src/sequence_header.rs
index 987cdf1..8d02bb9 100644
--- a/src/sequence_header.rs
+++ b/src/sequence_header.rs
@@ -91,7 +91,7 @@ impl SequenceHeader {
     pub fn new(frame_width: usize, frame_height: usize) -> SequenceHeader { SequenceHeader {
         profile: 0,
         still_picture: false,
-        operating_points: vec![],
+        operating_points: vec![OperatingPoint { idc: 0, seq_level_idx: 31, seq_tier: Some(false) }],
         frame_width: frame_width,
         frame_height: frame_height,
         max_frame_width: frame_width,
-- 
2.43.0


From c5acadaf556d53684bf40cd2e7055079d0acd2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:18 +0000
Subject: [PATCH 018/113] fix: write seq_level_idx in reduced still picture
 headers

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 2e62813..8e034db 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -98,7 +98,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                 self.coder.push_bit(out_bits, sequence_header.still_picture as u8);
                 self.coder.push_bit(out_bits, ecx.reduced_still_picture_header as u8);
                 if ecx.reduced_still_picture_header {
-                    // TODO
+                    self.coder.push_bits_with_size(out_bits, sequence_header.operating_points[0].seq_level_idx as u32, 5);
                 } else {
                     self.coder.push_bits_with_size(out_bits, (sequence_header.operating_points.len()-1) as u32, 5);
                     for op in sequence_header.operating_points.iter() {
-- 
2.43.0


From c0f6beda620635af84aa1d80c45fc1e2daee72f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:18 +0000
Subject: [PATCH 019/113] fix: leave separate_uv_delta_q out of monochrome
 sequence headers

---
 src/obu_encoder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 8e034db..9e395a0 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -252,7 +252,9 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         self.coder.push_bits_with_size(out_bits, ecx.color_config.chroma_sample_position as u32, 2);
                     }
                 }
-                self.coder.push_bit(out_bits, ecx.color_config.separate_uv_delta_q as u8);
+                if !ecx.color_config.mono_chrome {
+                    self.coder.push_bit(out_bits, ecx.color_config.separate_uv_delta_q as u8);
+                }
 
                 if ecx.reduced_still_picture_header {
                     ecx.timing_info = None;
-- 
2.43.0


From 6ccf46899c7608d74c4bcaa24e92343adcdc87c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:18 +0000
Subject: [PATCH 020/113] fix: take the number of order hint bits from the
 encoder settings

It was never set, so sequences with order hints panicked.
---
 src/obu_encoder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 9e395a0..f7cd4c1 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -174,6 +174,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         ecx.seq_force_integer_mv = SELECT_INTEGER_MV;
                     }
                     if ecx.enable_order_hint {
+                        self.order_hint_bits = ecx.order_hint_bits as usize;
                         self.coder.push_bits_with_size(out_bits, (self.order_hint_bits-1) as u32, 3);
                     } else {
                         self.order_hint_bits = 0;
-- 
2.43.0


From 6c87fb6d6f7c395cc60f14f9ffe16d24a6c0519e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:18 +0000
Subject: [PATCH 021/113] fix: tell the frame headers how many planes the
 sequence has

---
 src/obu_encoder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index f7cd4c1..0b3fcb2 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -197,6 +197,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     self.coder.push_bit(out_bits, ecx.color_config.mono_chrome as u8);
                 }
                 self.num_planes = if ecx.color_config.mono_chrome { 1 } else { 3 };
+                ecx.num_planes = self.num_planes;
                 self.coder.push_bit(out_bits, ecx.color_config.color_description.is_some() as u8);
                 if let Some(ref mut cd) = ecx.color_config.color_description {
                     self.coder.push_bits_with_size(out_bits, cd.color_primaries as u32, 8);
-- 
2.43.0


From d82188a7e57f4e178cf81ec9387ac4f99485270c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:18 +0000
Subject: [PATCH 022/113] fix: use the frame id lengths the sequence header
 announces

---
 src/obu_encoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 0b3fcb2..6bba09d 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -126,7 +126,10 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                 } else {
                     self.coder.push_bit(out_bits, if let Some(_) = sequence_header.frame_id { 1 } else { 0 } as u8);
                 }
+                ecx.frame_id_numbers_present_flag = sequence_header.frame_id.is_some();
                 if let Some(ref fid) = sequence_header.frame_id {
+                    ecx.delta_frame_id_length = fid.delta_frame_id_length as usize;
+                    ecx.additional_frame_id_length = fid.additional_frame_id_length as usize;
                     self.coder.push_bits_with_size(out_bits, (fid.delta_frame_id_length-2) as u32, 4);
                     self.coder.push_bits_with_size(out_bits, (fid.additional_frame_id_length-1) as u32, 3);
                 }
-- 
2.43.0


From b75f6923ab5c5a4e17b9bc48de683b9500e5b159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:18 +0000
Subject: [PATCH 023/113] fix: write timecode metadata with its own type number

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 6bba09d..f0a7a11 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1531,7 +1531,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         time_offset_length: tol,
                         time_offset_value: tov,
                     } => {
-                        self.coder.encode_leb128(out_bits, 3);
+                        self.coder.encode_leb128(out_bits, 5);
                         self.coder.push_bits_with_size(out_bits, ct as u32, 5);
                         if let (Some(s), Some(m), Some(h)) = (secs, mins, hrs) {
                             self.coder.push_bit(out_bits, 1);
-- 
2.43.0


From 58a3b333332306125a9beafc624f1af9d9cadce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:18 +0000
Subject: [PATCH 024/113] fix: write the payload bytes of ITU-T T.35 metadata

---
 src/obu_encoder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index f0a7a11..c38e0ce 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1462,7 +1462,9 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         if cc==0xFF {
                             self.coder.push_bits_with_size(out_bits, 0 as u32, 8); // FIXME itu_t_t35_country_code_extension_byte
                         }
-                        // FIXME itu_t_t35_payload_bytes not in spec
+                        for b in pb.iter() {
+                            self.coder.push_bits_with_size(out_bits, *b as u32, 8);
+                        }
                     },
                     &METADATA_TYPE_HDR_CLL { max_cll: mc, max_fall: mf } => {
                         self.coder.encode_leb128(out_bits, 1);
-- 
2.43.0


From b890baab64a7e69783b29aac2c0f82383c3a3332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:37 +0000
Subject: [PATCH 025/113] fix: blocks 16 samples wide are 4 units wide, not 3

---
 src/constants.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/constants.rs b/src/constants.rs
index 8377541..23e6745 100644
--- a/src/constants.rs
+++ b/src/constants.rs
@@ -1161,7 +1161,7 @@ pub const mi_height_log2: [usize; BLOCK_SIZES] = [
 ];
 
 pub const num_4x4_blocks_wide: [usize; BLOCK_SIZES] = [
-    1, 1, 2, 2, 2, 3, 3, 3, 8, 8, 8,
+    1, 1, 2, 2, 2, 4, 4, 4, 8, 8, 8,
     16, 16, 16, 32, 32, 1, 4, 2, 8, 4, 16
 ];
 
-- 
2.43.0


From 094b6fa644a2d0ce32f1b6be60924e6107754ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:37 +0000
Subject: [PATCH 026/113] fix: inter transform sets are numbered from 1, after
 TX_SET_DCTONLY

---
 src/constants.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/constants.rs b/src/constants.rs
index 23e6745..f6ddad8 100644
--- a/src/constants.rs
+++ b/src/constants.rs
@@ -1259,9 +1259,9 @@ pub const tx_size_sqr_up: [TxSize; TX_SIZES_ALL+1] = [
 pub const TX_SET_DCTONLY: usize = 0;
 pub const TX_SET_INTRA_1: usize = 1;
 pub const TX_SET_INTRA_2: usize = 2;
-pub const TX_SET_INTER_1: usize = 0;
-pub const TX_SET_INTER_2: usize = 1;
-pub const TX_SET_INTER_3: usize = 2;
+pub const TX_SET_INTER_1: usize = 1;
+pub const TX_SET_INTER_2: usize = 2;
+pub const TX_SET_INTER_3: usize = 3;
 
 #[derive(PartialEq, Copy, Clone)]
 pub enum TxType {
-- 
2.43.0


From 6dcf3f82ad8cc655fbc1602d6c193ee5986981d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:37 +0000
Subject: [PATCH 027/113] fix: mi_width_log2 and mi_height_log2 count 4x4
 units, not samples

---
 src/constants.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/constants.rs b/src/constants.rs
index f6ddad8..05085a8 100644
--- a/src/constants.rs
+++ b/src/constants.rs
@@ -1153,11 +1153,11 @@ pub const block_height: [usize; BLOCK_SIZES] = [
 ];
 
 pub const mi_width_log2: [usize; BLOCK_SIZES] = [
-    2, 2, 3, 3, 3, 4, 4, 4, 5, 5, 5, 6, 6, 6, 7, 7, 2, 4, 3, 5, 4, 6
+    0, 0, 1, 1, 1, 2, 2, 2, 3, 3, 3, 4, 4, 4, 5, 5, 0, 2, 1, 3, 2, 4
 ];
 
 pub const mi_height_log2: [usize; BLOCK_SIZES] = [
-    2, 3, 2, 3, 4, 3, 4, 5, 4, 5, 6, 5, 6, 7, 6, 7, 4, 2, 5, 3, 6, 4
+    0, 1, 0, 1, 2, 1, 2, 3, 2, 3, 4, 3, 4, 5, 4, 5, 2, 0, 3, 1, 4, 2
 ];
 
 pub const num_4x4_blocks_wide: [usize; BLOCK_SIZES] = [
-- 
2.43.0


From c84df3bdeb095ed3153903dc92eb946dadde7e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:20 +0000
Subject: [PATCH 028/113] fix: a tile count that is no power of two needs the
 next larger log2

---
 src/frame.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frame.rs b/src/frame.rs
index b5dd7d2..a080bad 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -383,10 +383,10 @@ impl Frame {
     }
 
     pub fn tile_cols_log2(&self) -> usize {
-        msb16(self.tile_col_starts.len() as u16) as usize
+        msb16((2*self.tile_col_starts.len()-1) as u16) as usize
     }
 
     pub fn tile_rows_log2(&self) -> usize {
-        msb16(self.tile_row_starts.len() as u16) as usize
+        msb16((2*self.tile_row_starts.len()-1) as u16) as usize
     }
 }
\ No newline at end of file
-- 
2.43.0


From 21cca715c3b6f149b052561a1f7906bc59a96775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:55 +0000
Subject: [PATCH 029/113] fix: uv_mode tables are selected by the luma mode

---
 src/bool_coder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index f89eb52..51c8553 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -400,13 +400,13 @@ impl BoolCoder {
         self.encode_symbol(y_mode as i32, out_bits, cdf);
     }
 
-    pub fn encode_uv_mode(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, uv_mode: YMode, mi_size: BlockSize, lossless: bool, subsampling_x: bool, subsampling_y: bool) {
+    pub fn encode_uv_mode(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, uv_mode: YMode, y_mode: YMode, mi_size: BlockSize, lossless: bool, subsampling_x: bool, subsampling_y: bool) {
         let cdf: &mut [i32] = if lossless && get_plane_residual_size(mi_size, 1, subsampling_x, subsampling_y)==BLOCK_4X4 {
-            &mut tile_cdf.uv_mode_cfl_allowed[uv_mode as usize]
+            &mut tile_cdf.uv_mode_cfl_allowed[y_mode as usize]
         } else if !lossless && Max!(block_width[mi_size as usize], block_height[mi_size as usize])<=32 {
-            &mut tile_cdf.uv_mode_cfl_allowed[uv_mode as usize]
+            &mut tile_cdf.uv_mode_cfl_allowed[y_mode as usize]
         } else {
-            &mut tile_cdf.uv_mode_cfl_not_allowed[uv_mode as usize]
+            &mut tile_cdf.uv_mode_cfl_not_allowed[y_mode as usize]
         };
         self.encode_symbol(uv_mode as i32, out_bits, cdf);
     }
-- 
2.43.0


From e8b4b845fe4e6f220d2ed273f43f6d0160dc20c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:55 +0000
Subject: [PATCH 030/113] fix: split_or_horz and split_or_vert sum the
 partitions that split

---
 src/bool_coder.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 51c8553..9f5cf77 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -453,14 +453,14 @@ impl BoolCoder {
             &mut tile_cdf.partition_w128[ctx]
         };
         let mut psum = partition_cdf[PARTITION_VERT as usize] - partition_cdf[PARTITION_VERT as usize - 1] +
-                   partition_cdf[PARTITION_VERT as usize] - partition_cdf[PARTITION_VERT as usize - 1] +
-                   partition_cdf[PARTITION_VERT as usize] - partition_cdf[PARTITION_VERT as usize - 1] +
-                   partition_cdf[PARTITION_VERT as usize] - partition_cdf[PARTITION_VERT as usize - 1] +
-                   partition_cdf[PARTITION_VERT as usize] - partition_cdf[PARTITION_VERT as usize - 1];
+                   partition_cdf[PARTITION_SPLIT as usize] - partition_cdf[PARTITION_SPLIT as usize - 1] +
+                   partition_cdf[PARTITION_HORZ_A as usize] - partition_cdf[PARTITION_HORZ_A as usize - 1] +
+                   partition_cdf[PARTITION_VERT_A as usize] - partition_cdf[PARTITION_VERT_A as usize - 1] +
+                   partition_cdf[PARTITION_VERT_B as usize] - partition_cdf[PARTITION_VERT_B as usize - 1];
         if bsize != BLOCK_128X128 {
             psum += partition_cdf[PARTITION_VERT_4 as usize] - partition_cdf[PARTITION_VERT_4 as usize - 1];
         }
-        let mut cdf = [ 1<<15 - psum, 1<<15, 0 ];
+        let mut cdf = [ (1<<15) - psum, 1<<15, 0 ];
         self.encode_symbol(split_or_horz, out_bits, &mut cdf);
     }
 
@@ -478,15 +478,15 @@ impl BoolCoder {
         } else {
             &mut tile_cdf.partition_w128[ctx]
         };
-        let mut psum = partition_cdf[PARTITION_VERT as usize] - partition_cdf[PARTITION_VERT as usize - 1] +
+        let mut psum = partition_cdf[PARTITION_HORZ as usize] - partition_cdf[PARTITION_HORZ as usize - 1] +
                    partition_cdf[PARTITION_SPLIT as usize] - partition_cdf[PARTITION_SPLIT as usize - 1] +
                    partition_cdf[PARTITION_HORZ_A as usize] - partition_cdf[PARTITION_HORZ_A as usize - 1] +
-                   partition_cdf[PARTITION_VERT_A as usize] - partition_cdf[PARTITION_VERT_A as usize - 1] +
-                   partition_cdf[PARTITION_VERT_B as usize] - partition_cdf[PARTITION_VERT_B as usize - 1];
+                   partition_cdf[PARTITION_HORZ_B as usize] - partition_cdf[PARTITION_HORZ_B as usize - 1] +
+                   partition_cdf[PARTITION_VERT_A as usize] - partition_cdf[PARTITION_VERT_A as usize - 1];
         if bsize != BLOCK_128X128 {
-            psum += partition_cdf[PARTITION_VERT_4 as usize] - partition_cdf[PARTITION_VERT_4 as usize - 1];
+            psum += partition_cdf[PARTITION_HORZ_4 as usize] - partition_cdf[PARTITION_HORZ_4 as usize - 1];
         }
-        let mut cdf = [ 1<<15 - psum, 1<<15, 0 ];
+        let mut cdf = [ (1<<15) - psum, 1<<15, 0 ];
         self.encode_symbol(split_or_vert, out_bits, &mut cdf);
     }
 
-- 
2.43.0


From 6139a3f2eeae0e301fdc0e31efb5651a166f1ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:55 +0000
Subject: [PATCH 031/113] fix: tx_depth compares the height of the left block

---
 src/bool_coder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 9f5cf77..ff11e69 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -503,7 +503,7 @@ impl BoolCoder {
         };
         let left_h = match frame.get_left_mi(mi_row, mi_col) {
             Some(mi) => if mi.is_inter {
-                block_width[mi.mi_size as usize]
+                block_height[mi.mi_size as usize]
             } else {
                 tx_height[mi.tx_size as usize]
             },
-- 
2.43.0


From 41793690bc446a6d2fb4f7ab563aa83744df7638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:55 +0000
Subject: [PATCH 032/113] fix: txfm_split counts the sides on which the
 neighbour transforms are smaller

---
 src/bool_coder.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index ff11e69..7650408 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -523,7 +523,7 @@ impl BoolCoder {
     }
 
     pub fn encode_txfm_split(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, row: usize, col: usize, mi_row: usize, mi_col: usize, frame: &mut Frame, tx_size: TxSize, mi_size: BlockSize, tx_fm_split: usize) {
-        let above = if row==mi_row {
+        let above_w = if row==mi_row {
             match frame.get_above_mi(row, col) {
                 Some(mi) => if mi.skip && mi.is_inter {
                     block_width[mi.mi_size as usize]
@@ -531,14 +531,16 @@ impl BoolCoder {
                 None => 64,
             }
         } else { tx_width[frame.get_above_mi(row, col).unwrap().tx_size as usize] };
-        let left = if col==mi_col {
+        let left_h = if col==mi_col {
             match frame.get_left_mi(row, col) {
                 Some(mi) => if mi.skip && mi.is_inter {
-                    block_width[mi.mi_size as usize]
-                } else { tx_width[mi.tx_size as usize] },
+                    block_height[mi.mi_size as usize]
+                } else { tx_height[mi.tx_size as usize] },
                 None => 64,
             }
-        } else { tx_width[frame.get_above_mi(row, col).unwrap().tx_size as usize] };
+        } else { tx_height[frame.get_left_mi(row, col).unwrap().tx_size as usize] };
+        let above = (above_w < tx_width[tx_size as usize]) as usize;
+        let left = (left_h < tx_height[tx_size as usize]) as usize;
         let size = Min!(64, Max!(block_width[mi_size as usize], block_height[mi_size as usize]));
         let max_tx_size = find_tx_size(size, size);
         let tx_sz_sqr_up = tx_size_sqr_up[tx_size as usize];
-- 
2.43.0


From a02c84d8e72dfed38e2f2e23eb153c0db0e37a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:55 +0000
Subject: [PATCH 033/113] fix: interp_filter contexts compare neighbours with
 the first reference

---
 src/bool_coder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 7650408..e152444 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -763,12 +763,12 @@ impl BoolCoder {
         let ref_frame = frame.get_mi(mi_row, mi_col).unwrap().ref_frame;
         let mut ctx = ((dir&1)*2 + (ref_frame[1]>INTRA_FRAME) as usize) * 4;
         let left_type = if let Some(mi) = frame.get_left_mi(mi_row, mi_col) {
-            if mi.ref_frame[0]==ref_frame[0] || mi.ref_frame[1]==ref_frame[1] {
+            if mi.ref_frame[0]==ref_frame[0] || mi.ref_frame[1]==ref_frame[0] {
                 mi.interp_filter[dir]
             } else { BILINEAR }
         } else { BILINEAR };
         let above_type = if let Some(mi) = frame.get_above_mi(mi_row, mi_col) {
-            if mi.ref_frame[0]==ref_frame[0] || mi.ref_frame[1]==ref_frame[1] {
+            if mi.ref_frame[0]==ref_frame[0] || mi.ref_frame[1]==ref_frame[0] {
                 mi.interp_filter[dir]
             } else { BILINEAR }
         } else { BILINEAR };
-- 
2.43.0


From 060f1f58b0b30b2ab0a8226a1b32c53212a8ea60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:55 +0000
Subject: [PATCH 034/113] fix: mv_sign is a sign, not a joint type

---
 src/bool_coder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index e152444..262987a 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -793,7 +793,7 @@ impl BoolCoder {
         self.encode_symbol(mv_joint as i32, out_bits, &mut cdf);
     }
 
-    pub fn encode_mv_sign(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, mv_sign: MvJoint, mv_ctx: usize, comp: usize) {
+    pub fn encode_mv_sign(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, mv_sign: usize, mv_ctx: usize, comp: usize) {
         let mut cdf: &mut [i32] = &mut tile_cdf.mv_sign[mv_ctx as usize][comp];
         self.encode_symbol(mv_sign as i32, out_bits, &mut cdf);
     }
-- 
2.43.0


From d03d59a0a6f1d3ebaaaa3538d4394be9aade1f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:55 +0000
Subject: [PATCH 035/113] fix: coeff_base_eob contexts do not underflow

---
 src/bool_coder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 262987a..25ef4b0 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -973,7 +973,7 @@ impl BoolCoder {
     }
 
     pub fn encode_coeff_base_eob(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, coeff_base_eob: usize, tx_size: TxSize, tx_size_ctx: usize, ptype: usize, plane: usize, x4: usize, y4: usize, scan: &[usize], c: usize, frame: &mut Frame, lossless: bool, is_inter: bool, reduced_tx_set: bool, uv_mode: YMode, mi_row: usize, mi_col: usize, quant: &[isize]) {
-        let ctx = get_coeff_base_ctx(tx_size, plane, x4, y4, scan[c], c, true, frame, lossless, is_inter, reduced_tx_set, uv_mode, mi_row, mi_col, quant) - SIG_COEF_CONTEXTS + SIG_COEF_CONTEXTS_EOB;
+        let ctx = get_coeff_base_ctx(tx_size, plane, x4, y4, scan[c], c, true, frame, lossless, is_inter, reduced_tx_set, uv_mode, mi_row, mi_col, quant) + SIG_COEF_CONTEXTS_EOB - SIG_COEF_CONTEXTS;
         let mut cdf: &mut [i32] = &mut tile_cdf.coeff_base_eob[0/*FIXME*/][tx_size_ctx][ptype][ctx];
         self.encode_symbol(coeff_base_eob as i32, out_bits, &mut cdf);
     }
-- 
2.43.0


From f6eab55a826aba6b9e3d8dd8ffde28c96839c55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:55 +0000
Subject: [PATCH 036/113] fix: dc_sign codes the sign, its neighbours only
 choose the table

---
 src/bool_coder.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 25ef4b0..317ad74 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -978,14 +978,14 @@ impl BoolCoder {
         self.encode_symbol(coeff_base_eob as i32, out_bits, &mut cdf);
     }
 
-    pub fn encode_dc_sign(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, ptype: usize, frame: &mut Frame, plane: usize, mi_row: usize, mi_col: usize, w4: usize, h4: usize, x4: usize, y4: usize) {
+    pub fn encode_dc_sign(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, dc_sign: usize, ptype: usize, frame: &mut Frame, plane: usize, mi_row: usize, mi_col: usize, w4: usize, h4: usize, x4: usize, y4: usize) {
         let mut max_x4 = frame.mi_cols();
         let mut max_y4 = frame.mi_rows();
         if plane>0 {
             max_x4 >>= frame.subsampling_x as usize;
             max_y4 >>= frame.subsampling_y as usize;
         }
-        let mut dc_sign: isize = 0;
+        let mut sum: isize = 0;
         for k in 0..w4 {
             if x4+k < max_x4 {
                 let sign = match frame.get_above_mi(mi_row, mi_col) {
@@ -993,9 +993,9 @@ impl BoolCoder {
                     None => 0,
                 };
                 if sign==1 {
-                    dc_sign -= 1;
+                    sum -= 1;
                 } else if sign==2 {
-                    dc_sign += 1;
+                    sum += 1;
                 }
             }
         }
@@ -1006,13 +1006,13 @@ impl BoolCoder {
                     None => 0,
                 };
                 if sign==1 {
-                    dc_sign -= 1;
+                    sum -= 1;
                 } else if sign==2 {
-                    dc_sign += 1;
+                    sum += 1;
                 }
             }
         }
-        let ctx = if dc_sign<0 { 1 } else if dc_sign>0 {
+        let ctx = if sum<0 { 1 } else if sum>0 {
             2
         } else { 0 };
         let mut cdf: &mut [i32] = &mut tile_cdf.dc_sign[0/*FIXME*/][ptype][ctx];
-- 
2.43.0


From 48ba4396e1c0900b1716783aa1ef69b303a97e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:55 +0000
Subject: [PATCH 037/113] fix: coeff_br contexts use coefficient magnitudes

---
 src/bool_coder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 317ad74..5cbd9b4 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -1033,7 +1033,7 @@ impl BoolCoder {
             let ref_row = row + mag_ref_offset_with_tx_class[tx_class][idx][0];
             let ref_col = col + mag_ref_offset_with_tx_class[tx_class][idx][1];
             if /*ref_row>=0 && ref_col>=0 && FIXME*/ref_row<txh && ref_col<(1<<bwl) {
-                mag += Min!(quant[ref_row*txw + ref_col] as usize, COEFF_BASE_RANGE + NUM_BASE_LEVELS + 1);
+                mag += Min!(Abs!(quant[ref_row*txw + ref_col]) as usize, COEFF_BASE_RANGE + NUM_BASE_LEVELS + 1);
             }
         }
         mag = Min!((mag+1) >> 1, 6);
-- 
2.43.0


From ad5c7a3e9c3ead17fcf092f5ef2ada2bb704f260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:56 +0000
Subject: [PATCH 038/113] fix: comp_ref_type when one neighbour is
 unidirectional

---
 src/bool_coder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 5cbd9b4..6ea9562 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -1180,7 +1180,7 @@ impl BoolCoder {
             } else {
                 if !above_uni_comp && !left_uni_comp {
                     0
-                } else if !above_uni_comp || left_uni_comp {
+                } else if !above_uni_comp || !left_uni_comp {
                     2
                 } else { 3 + ((above0==BWDREF_FRAME) as usize == (left0==BWDREF_FRAME) as usize) as usize }
             }
-- 
2.43.0


From 6165ca6050e4fc33f3bcefb707a47bd07326dda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:56 +0000
Subject: [PATCH 039/113] fix: cfl_alpha contexts start at 0

---
 src/bool_coder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 6ea9562..0360fc5 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -1302,13 +1302,13 @@ impl BoolCoder {
     }
 
     pub fn encode_cfl_alpha_u(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, cfl_alpha_u: usize, cfl_alpha_signs: usize) {
-        let ctx = if cfl_alpha_signs>=2 { cfl_alpha_signs-1 } else { assert!(false); 0 };
+        let ctx = if cfl_alpha_signs>=2 { cfl_alpha_signs-2 } else { assert!(false); 0 };
         let mut cdf: &mut [i32] = &mut tile_cdf.cfl_alpha[ctx];
         self.encode_symbol(cfl_alpha_u as i32, out_bits, &mut cdf);
     }
 
     pub fn encode_cfl_alpha_v(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, cfl_alpha_v: usize, cfl_alpha_signs: usize) {
-        let ctx = if cfl_alpha_signs%3<2 { (cfl_alpha_signs%3)*3+cfl_alpha_signs/3-1 } else { assert!(false); 0 };
+        let ctx = if cfl_alpha_signs%3<2 { (cfl_alpha_signs%3)*3+cfl_alpha_signs/3 } else { assert!(false); 0 };
         let mut cdf: &mut [i32] = &mut tile_cdf.cfl_alpha[ctx];
         self.encode_symbol(cfl_alpha_v as i32, out_bits, &mut cdf);
     }
-- 
2.43.0


From 2f9f3fbabe0a9c72dcb97262e4d3f205aedfe4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:32 +0000
Subject: [PATCH 040/113] fix: intra_tx_type and inter_tx_type code the
 position of the type in its set

---
 src/bool_coder.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 0360fc5..5c8f9e9 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -1139,23 +1139,25 @@ impl BoolCoder {
         let intra_dir = if use_filter_intra { filter_intra_mode_to_intra_dir[filter_intra_mode] as usize } else {
             y_mode as usize
         };
-        let mut cdf: &mut [i32] = if tx_set==TX_SET_INTRA_1 {
-            &mut tile_cdf.intra_tx_type_set1[tx_size_sqr[tx_size as usize] as usize][intra_dir]
+        let (mut cdf, inv_set): (&mut [i32], &[TxType]) = if tx_set==TX_SET_INTRA_1 {
+            (&mut tile_cdf.intra_tx_type_set1[tx_size_sqr[tx_size as usize] as usize][intra_dir], &tx_type_intra_inv_set1)
         } else {
-            &mut tile_cdf.intra_tx_type_set2[tx_size_sqr[tx_size as usize] as usize][intra_dir]
+            (&mut tile_cdf.intra_tx_type_set2[tx_size_sqr[tx_size as usize] as usize][intra_dir], &tx_type_intra_inv_set2)
         };
-        self.encode_symbol(intra_tx_type as i32, out_bits, &mut cdf);
+        let symbol = inv_set.iter().position(|t| *t==intra_tx_type).unwrap();
+        self.encode_symbol(symbol as i32, out_bits, &mut cdf);
     }
 
     pub fn encode_inter_tx_type(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, inter_tx_type: TxType, tx_size: TxSize, tx_set: usize) {
-        let mut cdf: &mut [i32] = if tx_set==TX_SET_INTER_1 {
-            &mut tile_cdf.inter_tx_type_set1[tx_size_sqr[tx_size as usize] as usize]
+        let (mut cdf, inv_set): (&mut [i32], &[TxType]) = if tx_set==TX_SET_INTER_1 {
+            (&mut tile_cdf.inter_tx_type_set1[tx_size_sqr[tx_size as usize] as usize], &tx_type_inter_inv_set1)
         } else if tx_set==TX_SET_INTER_2 {
-            &mut tile_cdf.inter_tx_type_set2[tx_size_sqr[tx_size as usize] as usize]
+            (&mut tile_cdf.inter_tx_type_set2[tx_size_sqr[tx_size as usize] as usize], &tx_type_inter_inv_set12)
         } else {
-            &mut tile_cdf.inter_tx_type_set3[tx_size_sqr[tx_size as usize] as usize]
+            (&mut tile_cdf.inter_tx_type_set3[tx_size_sqr[tx_size as usize] as usize], &tx_type_inter_inv_set3)
         };
-        self.encode_symbol(inter_tx_type as i32, out_bits, &mut cdf);
+        let symbol = inv_set.iter().position(|t| *t==inter_tx_type).unwrap();
+        self.encode_symbol(symbol as i32, out_bits, &mut cdf);
     }
 
     pub fn encode_comp_ref_type(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, comp_ref_type: usize, frame: &mut Frame, mi_row: usize, mi_col: usize) {
-- 
2.43.0


From 634a96a0684fe754fd1d39cdbf0f9e242d35def8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:59 +0000
Subject: [PATCH 041/113] fix: order hints and sign biases are indexed by
 reference frame

The arrays had REFS_PER_FRAME entries, and every key frame header panicked on ALTREF_FRAME.
---
 src/encoder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index 51849ae..ec55d6e 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -31,9 +31,9 @@ pub struct EncoderContext {
     pub prev_gm_params: [[isize; 6]; NUM_REF_FRAMES],
     pub film_grain_params: Option<FilmGrainParams>,
     pub ref_film_grain_params: [FilmGrainParams; NUM_REF_FRAMES],
-    pub order_hints: [usize; REFS_PER_FRAME],
+    pub order_hints: [usize; NUM_REF_FRAMES],
     pub expected_frame_id: [usize; REFS_PER_FRAME],
-    pub ref_frame_sign_bias: [usize; REFS_PER_FRAME],
+    pub ref_frame_sign_bias: [usize; NUM_REF_FRAMES],
     pub seq_force_screen_content_tools: usize,
     pub seq_force_integer_mv: usize,
     pub prev_frame_id: usize,
@@ -114,9 +114,9 @@ impl EncoderContext {
         ref_film_grain_params: [ // FIXME
             FilmGrainParams::new(), FilmGrainParams::new(), FilmGrainParams::new(), FilmGrainParams::new(), FilmGrainParams::new(), FilmGrainParams::new(), FilmGrainParams::new(), FilmGrainParams::new()
         ],
-        order_hints: [0; REFS_PER_FRAME],
+        order_hints: [0; NUM_REF_FRAMES],
         expected_frame_id: [0; REFS_PER_FRAME],
-        ref_frame_sign_bias: [0; REFS_PER_FRAME],
+        ref_frame_sign_bias: [0; NUM_REF_FRAMES],
         seq_force_screen_content_tools: 0,
         seq_force_integer_mv: 0,
         prev_frame_id: 0,
-- 
2.43.0


From 95e5b033b99d1f5c780fadc32b6321753a62c254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:00 +0000
Subject: [PATCH 042/113] fix: tile starts are rebuilt for every frame header

The vectors start empty, so indexing them panicked.
---
 src/obu_encoder.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index c38e0ce..c16898f 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -782,14 +782,13 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         }
                         self.coder.push_bit(out_bits, 0 as u8); // increment_tile_cols_log2
                         let tile_width_sb = (sb_cols+(1<<frame.tile_cols_log2())-1) >> frame.tile_cols_log2();
-                        let mut i = 0;
                         let mut start_sb = 0;
+                        ecx.mi_col_starts.clear();
                         while start_sb<sb_cols {
-                            ecx.mi_col_starts[i] = start_sb << sb_shift;
-                            i += 1;
+                            ecx.mi_col_starts.push(start_sb << sb_shift);
                             start_sb += tile_width_sb
                         }
-                        ecx.mi_col_starts[i] = mi_cols;
+                        ecx.mi_col_starts.push(mi_cols);
                         //frame.tile_cols() = i;
 
                         let min_log2_tile_rows = Max!(min_log2_tiles-frame.tile_cols_log2(), 0);
@@ -799,14 +798,13 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         }
                         self.coder.push_bit(out_bits, 0 as u8); // increment_tile_rows_log2
                         let tile_height_sb = (sb_rows+(1<<frame.tile_rows_log2())-1) >> frame.tile_rows_log2();
-                        let mut i = 0;
                         start_sb = 0;
+                        ecx.mi_row_starts.clear();
                         while start_sb<sb_rows {
-                            ecx.mi_row_starts[i] = start_sb << sb_shift;
-                            i += 1;
+                            ecx.mi_row_starts.push(start_sb << sb_shift);
                             start_sb += tile_height_sb;
                         }
-                        ecx.mi_row_starts[i] = mi_rows;
+                        ecx.mi_row_starts.push(mi_rows);
                         //ecx.tile_rows = i;
                     } else {
                         // TODO
-- 
2.43.0


From 79c1359d4a258a9309edea8c4bc8325923974fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:01 +0000
Subject: [PATCH 043/113] fix: no terminating bit once the tile count is at its
 maximum

---
 src/obu_encoder.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index c16898f..c49f115 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -780,7 +780,9 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         for _ in 0..(frame.tile_cols_log2()-min_log2_tile_cols) {
                             self.coder.push_bit(out_bits, 1 as u8); // increment_tile_cols_log2
                         }
-                        self.coder.push_bit(out_bits, 0 as u8); // increment_tile_cols_log2
+                        if frame.tile_cols_log2()<max_log2_tile_cols {
+                            self.coder.push_bit(out_bits, 0 as u8); // increment_tile_cols_log2
+                        }
                         let tile_width_sb = (sb_cols+(1<<frame.tile_cols_log2())-1) >> frame.tile_cols_log2();
                         let mut start_sb = 0;
                         ecx.mi_col_starts.clear();
@@ -796,7 +798,9 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         for _ in 0..(frame.tile_rows_log2()-min_log2_tile_rows) {
                             self.coder.push_bit(out_bits, 1 as u8); // increment_tile_rows_log2
                         }
-                        self.coder.push_bit(out_bits, 0 as u8); // increment_tile_rows_log2
+                        if frame.tile_rows_log2()<max_log2_tile_rows {
+                            self.coder.push_bit(out_bits, 0 as u8); // increment_tile_rows_log2
+                        }
                         let tile_height_sb = (sb_rows+(1<<frame.tile_rows_log2())-1) >> frame.tile_rows_log2();
                         start_sb = 0;
                         ecx.mi_row_starts.clear();
-- 
2.43.0


From 93921514905c4dce881507fee718ba1147a59279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:01 +0000
Subject: [PATCH 044/113] fix: more tile columns than tiles needed

The unsigned subtraction underflowed before the maximum with 0 was taken.
---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index c49f115..72f8dfb 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -793,7 +793,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         ecx.mi_col_starts.push(mi_cols);
                         //frame.tile_cols() = i;
 
-                        let min_log2_tile_rows = Max!(min_log2_tiles-frame.tile_cols_log2(), 0);
+                        let min_log2_tile_rows = min_log2_tiles.saturating_sub(frame.tile_cols_log2());
                         let max_tile_height_sb = sb_rows >> min_log2_tile_rows;
                         for _ in 0..(frame.tile_rows_log2()-min_log2_tile_rows) {
                             self.coder.push_bit(out_bits, 1 as u8); // increment_tile_rows_log2
-- 
2.43.0


From 5c900befdb2144dbf59ebf411c41ed4ace849068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:02 +0000
Subject: [PATCH 045/113] fix: write the sizes of non-uniform tiles

uniform_tile_spacing_flag 0, the default of Frame::new, announces them.
---
 src/obu_encoder.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 72f8dfb..48789d1 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -811,7 +811,28 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         ecx.mi_row_starts.push(mi_rows);
                         //ecx.tile_rows = i;
                     } else {
-                        // TODO
+                        let mut widest_tile_sb = 0;
+                        ecx.mi_col_starts.clear();
+                        for i in 0..frame.tile_cols() {
+                            let start_sb = frame.tile_col_starts[i];
+                            let end_sb = if i+1<frame.tile_cols() { frame.tile_col_starts[i+1] } else { sb_cols };
+                            let size_sb = end_sb - start_sb;
+                            self.coder.encode_ns(out_bits, (size_sb-1) as u64, Min!(sb_cols-start_sb, max_tile_width_sb) as u64); // width_in_sbs_minus_1
+                            widest_tile_sb = Max!(size_sb, widest_tile_sb);
+                            ecx.mi_col_starts.push(start_sb << sb_shift);
+                        }
+                        ecx.mi_col_starts.push(mi_cols);
+
+                        let max_tile_area_sb = if min_log2_tiles>0 { (sb_rows*sb_cols) >> (min_log2_tiles+1) } else { sb_rows*sb_cols };
+                        let max_tile_height_sb = Max!(max_tile_area_sb/widest_tile_sb, 1);
+                        ecx.mi_row_starts.clear();
+                        for i in 0..frame.tile_rows() {
+                            let start_sb = frame.tile_row_starts[i];
+                            let end_sb = if i+1<frame.tile_rows() { frame.tile_row_starts[i+1] } else { sb_rows };
+                            self.coder.encode_ns(out_bits, (end_sb-start_sb-1) as u64, Min!(sb_rows-start_sb, max_tile_height_sb) as u64); // height_in_sbs_minus_1
+                            ecx.mi_row_starts.push(start_sb << sb_shift);
+                        }
+                        ecx.mi_row_starts.push(mi_rows);
                     }
                     if frame.tile_cols_log2()>0 || frame.tile_rows_log2()>0 {
                         self.coder.push_bits_with_size(out_bits, ecx.context_update_tile_id as u32, (frame.tile_rows_log2()+frame.tile_cols_log2()) as u8);
-- 
2.43.0


From ed68edbd2a79643b18312a25d41ed33fd467ae52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:03 +0000
Subject: [PATCH 046/113] fix: film grain parameters only where the sequence
 has them

They were written for every frame, shown or not, announced by the sequence header or not.
---
 src/obu_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 48789d1..409d249 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1328,9 +1328,9 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
 
                     // film grain params
                     // FIXME refactor
-                    if ecx.film_grain_params.is_none() || (!ecx.show_frame && !ecx.showable_frame) {
+                    if ecx.film_grain_params.is_some() && !ecx.show_frame && !ecx.showable_frame {
                         ecx.film_grain_params = Some(FilmGrainParams::new());
-                    } if ecx.film_grain_params.is_some() {
+                    } else if ecx.film_grain_params.is_some() {
                         let tmp_fgp = ecx.ref_film_grain_params[ecx.film_grain_params.as_ref().unwrap().film_grain_params_ref_idx as usize].clone();
                         let tmp_cc = ecx.color_config.clone();
                         if let Some(ref mut fgp) = ecx.film_grain_params {
-- 
2.43.0


From 392113b1e0d086de1fc1b0e75fb159b7a3a414f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:04 +0000
Subject: [PATCH 047/113] fix: loop filter mode deltas follow their own update
 flags

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 409d249..5c968e9 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1048,7 +1048,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 }
                                 for i in 0..2 {
                                     self.coder.push_bit(out_bits, frame.loop_filter_params.update_mode_delta[i] as u8);
-                                    if frame.loop_filter_params.update_ref_delta[i] {
+                                    if frame.loop_filter_params.update_mode_delta[i] {
                                         self.coder.encode_su(out_bits, frame.loop_filter_params.loop_filter_mode_deltas[i] as i64, 1+6);
                                     }
                                 }
-- 
2.43.0


From c74a94c0974742d9227d113312c8892117eabf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:04 +0000
Subject: [PATCH 048/113] fix: loop filter mode deltas are signed

---
 src/frame.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frame.rs b/src/frame.rs
index a080bad..58cc947 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -53,7 +53,7 @@ pub struct LoopFilterParams {
     pub update_ref_delta: [bool; TOTAL_REFS_PER_FRAME as usize],
     pub loop_filter_ref_deltas: [isize; TOTAL_REFS_PER_FRAME as usize],
     pub update_mode_delta: [bool; 2],
-    pub loop_filter_mode_deltas: [u8; 2]
+    pub loop_filter_mode_deltas: [isize; 2]
 }
 
 pub struct CDEFParams {
-- 
2.43.0


From 9521820cf2f22e98a45d02faa0d2c64ee5d2e0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:05 +0000
Subject: [PATCH 049/113] fix: loop restoration is written when the sequence
 enables it

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 5c968e9..7c9b07a 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1084,7 +1084,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     }
 
                     // lr params
-                    if ecx.all_lossless || frame.allow_intrabc || ecx.enable_restoration {
+                    if ecx.all_lossless || frame.allow_intrabc || !ecx.enable_restoration {
                         ecx.frame_restoration_type[0] = RESTORE_NONE;
                         ecx.frame_restoration_type[1] = RESTORE_NONE;
                         ecx.frame_restoration_type[2] = RESTORE_NONE;
-- 
2.43.0


From 19bee920254fb317463890ed5358650814e797d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:06 +0000
Subject: [PATCH 050/113] fix: lr_unit_shift of 64x64 superblocks is one bit

A shift of 2 is coded as two bits 1; the value 2 was pushed as a bit.
---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 7c9b07a..e920cf5 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1106,7 +1106,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             if ecx.use_128x128_superblock {
                                 self.coder.push_bit(out_bits, (frame.lr_params.lr_unit_shift-1) as u8);
                             } else {
-                                self.coder.push_bit(out_bits, frame.lr_params.lr_unit_shift as u8);
+                                self.coder.push_bit(out_bits, (frame.lr_params.lr_unit_shift>0) as u8);
                                 if frame.lr_params.lr_unit_shift>=1 {
                                     frame.lr_params.lr_unit_extra_shift = frame.lr_params.lr_unit_shift - 1;
                                     self.coder.push_bit(out_bits, frame.lr_params.lr_unit_extra_shift as u8);
-- 
2.43.0


From 24deef7b30574d784a84c48511460e36d062fbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:07 +0000
Subject: [PATCH 051/113] fix: chroma restoration unit sizes derive from the
 luma size

---
 src/obu_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index e920cf5..610fef1 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1118,8 +1118,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             } else {
                                 frame.lr_params.lr_uv_shift = 0;
                             }
-                            ecx.loop_restoration_size[1] >>= frame.lr_params.lr_uv_shift;
-                            ecx.loop_restoration_size[2] >>= frame.lr_params.lr_uv_shift;
+                            ecx.loop_restoration_size[1] = ecx.loop_restoration_size[0] >> frame.lr_params.lr_uv_shift;
+                            ecx.loop_restoration_size[2] = ecx.loop_restoration_size[0] >> frame.lr_params.lr_uv_shift;
                         }
                     }
 
-- 
2.43.0


From fd8947afa802040c40eafd651312fc04ca174f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:08 +0000
Subject: [PATCH 052/113] fix: switch frames and shown key frames are error
 resilient

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 610fef1..c4d8547 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -388,7 +388,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             self.coder.push_bit(out_bits, ecx.showable_frame as u8);
                         }
                         if frame.frame_type==SWITCH_FRAME || (frame.frame_type==KEY_FRAME && ecx.show_frame) {
-                            frame.error_resilient_mode = false;
+                            frame.error_resilient_mode = true;
                         } else {
                             self.coder.push_bit(out_bits, frame.error_resilient_mode as u8);
                         }
-- 
2.43.0


From 16267130923eeb7c5c1fdbf7457e3ad47af455d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:08 +0000
Subject: [PATCH 053/113] fix: get_qindex without delta q is the base index

Losslessness of a frame depended on the quantizer index left by an earlier one.
---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index c4d8547..5aa52f6 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -983,7 +983,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 qindex = ecx.current_q_index as isize + data;
                             }
                             return Clip3!(0isize, 255isize, qindex) as usize;
-                        } else if ignore_delta_q {
+                        } else if !ignore_delta_q && frame.delta_q_params.delta_q_present {
                             return ecx.current_q_index;
                         } else {
                             return frame.quantization_params.base_q_idx as usize;
-- 
2.43.0


From b427eb7a24fa26e33c498fb7d471cf9c6e7f66b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:12 +0000
Subject: [PATCH 054/113] fix: there are eight segmentation features

The global motion feature was never written.
---
 src/constants.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/constants.rs b/src/constants.rs
index 05085a8..9ae9c73 100644
--- a/src/constants.rs
+++ b/src/constants.rs
@@ -335,7 +335,7 @@ pub const SEG_LVL_ALT_LF_Y_V: usize = 1; // Index for vertical luma loop filter
 pub const SEG_LVL_REF_FRAME: usize = 5; // Index for reference frame segment feature
 pub const SEG_LVL_SKIP: usize = 6; // Index for skip segment feature
 pub const SEG_LVL_GLOBALMV: usize = 7; // Index for global mv feature
-pub const SEG_LVL_MAX: usize = 7; // Number of segment features
+pub const SEG_LVL_MAX: usize = 8; // Number of segment features
 pub const PLANE_TYPES: usize = 2; // Number of different plane types (luma or chroma)
 pub const TX_SIZE_CONTEXTS: usize = 3; // Number of contexts for transform size
 pub const INTERP_FILTERS: usize = 3; // Number of values for interp_filter
@@ -1015,15 +1015,15 @@ pub const sgrproj_xqd_max: [isize; 2] = [
 ];
 
 // FIXME
-pub const segmentation_feature_bits: [usize; SEG_LVL_MAX+1] = [
+pub const segmentation_feature_bits: [usize; SEG_LVL_MAX] = [
     8 , 6 , 6 , 6 , 6 , 3 , 0 , 0
 ];
 
-pub const segmentation_feature_signed: [bool; SEG_LVL_MAX+1] = [
+pub const segmentation_feature_signed: [bool; SEG_LVL_MAX] = [
     true , true , true , true , true , false , false , false
 ];
 
-pub const segmentation_feature_max: [usize; SEG_LVL_MAX+1] = [
+pub const segmentation_feature_max: [usize; SEG_LVL_MAX] = [
     255, MAX_LOOP_FILTER, MAX_LOOP_FILTER, MAX_LOOP_FILTER, MAX_LOOP_FILTER, 7, 0, 0
 ];
 
-- 
2.43.0


From cce7e485a4b4e65c2444e274effbd27af4ab6009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:13 +0000
Subject: [PATCH 055/113] fix: unsigned segmentation features are plain bits,
 and absent features stay absent

---
 src/obu_encoder.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 5aa52f6..af2b855 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -902,19 +902,19 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             for i in 0..MAX_SEGMENTS {
                                 for j in 0..SEG_LVL_MAX {
                                     self.coder.push_bit(out_bits, frame.segmentation_params.feature_value[i][j].is_some() as u8);
-                                    let mut clipped_value = 0;
+                                    let mut clipped_value = None;
                                     if let Some(fv) = frame.segmentation_params.feature_value[i][j] {
                                         let bits_to_read = segmentation_feature_bits[j];
                                         let limit = segmentation_feature_max[j] as isize;
                                         if segmentation_feature_signed[j] {
                                             self.coder.encode_su(out_bits, fv as i64, 1+bits_to_read as u8);
-                                            clipped_value = Clip3!(-limit, limit, fv);
+                                            clipped_value = Some(Clip3!(-limit, limit, fv));
                                         } else {
-                                            self.coder.encode_su(out_bits, fv as i64, bits_to_read as u8);
-                                            clipped_value = Clip3!(0, limit, fv);
+                                            self.coder.push_bits_with_size(out_bits, fv as u32, bits_to_read as u8);
+                                            clipped_value = Some(Clip3!(0, limit, fv));
                                         }
                                     }
-                                    frame.segmentation_params.feature_value[i][j] = Some(clipped_value);
+                                    frame.segmentation_params.feature_value[i][j] = clipped_value;
                                 }
                             }
                         }
-- 
2.43.0


From 0b761fca0a2f153784ee99ed2357232566f5d34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:14 +0000
Subject: [PATCH 056/113] fix: global motion covers ALTREF and keeps the
 parameters to be written

The configured parameters were overwritten with the identity before they were written.
---
 src/obu_encoder.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index af2b855..8801a14 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1215,14 +1215,15 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     self.coder.push_bit(out_bits, frame.reduced_tx_set as u8);
 
                     // global motion params
-                    for rf in (LAST_FRAME as usize)..(ALTREF_FRAME as usize) {
-                        ecx.gm_type[rf] = IDENTITY;
-                        for i in 0..6 {
-                            ecx.gm_params[rf][i] = if i%3==2 { 1<<WARPEDMODEL_PREC_BITS } else { 0 };
+                    if ecx.frame_is_intra {
+                        for rf in (LAST_FRAME as usize)..(ALTREF_FRAME as usize + 1) {
+                            ecx.gm_type[rf] = IDENTITY;
+                            for i in 0..6 {
+                                ecx.gm_params[rf][i] = if i%3==2 { 1<<WARPEDMODEL_PREC_BITS } else { 0 };
+                            }
                         }
-                    }
-                    if !ecx.frame_is_intra {
-                        for rf in (LAST_FRAME as usize)..(ALTREF_FRAME as usize) {
+                    } else {
+                        for rf in (LAST_FRAME as usize)..(ALTREF_FRAME as usize + 1) {
                             let mut typ;
                             self.coder.push_bit(out_bits, frame.global_motion_params.is_global[rf] as u8);
                             if frame.global_motion_params.is_global[rf] {
@@ -1237,6 +1238,11 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 typ = IDENTITY;
                             }
                             ecx.gm_type[rf] = typ;
+                            for i in 0..6 {
+                                if typ==IDENTITY || (typ==TRANSLATION && i>=2) {
+                                    ecx.gm_params[rf][i] = if i%3==2 { 1<<WARPEDMODEL_PREC_BITS } else { 0 };
+                                }
+                            }
 
                             let mut encode_global_param = |typ: usize, rf: usize, idx: usize, ecx: &EncoderContext, coder: &mut BoolCoder| -> () {
                                 let mut abs_bits = GM_ABS_ALPHA_BITS;
-- 
2.43.0


From e2aa403408cf3b1aa3bddf4850c470951d43ca8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:14 +0000
Subject: [PATCH 057/113] fix: global motion parameters are recentered around
 their reference

The decoding direction of the mapping was applied, and the number of symbols was wrong for references in the upper half.
---
 src/obu_encoder.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 8801a14..1943b54 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1262,13 +1262,13 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 let mx = 1 << abs_bits;
                                 let r = (ecx.prev_gm_params[rf][idx]>>prec_diff) - sub;
 
-                                let inverse_recenter = |r: usize, v: usize| -> usize {
+                                let recenter = |r: usize, v: usize| -> usize {
                                     if v > 2*r {
                                         v
-                                    } else if v&1 > 0 {
-                                        r - ((v+1)>>1)
+                                    } else if v >= r {
+                                        (v-r) << 1
                                     } else {
-                                        r + (v>>1)
+                                        ((r-v)<<1) - 1
                                     }
                                 };
                                 let mut encode_subexp = |v: usize, num_syms: usize, coder: &mut BoolCoder| -> () {
@@ -1299,12 +1299,12 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 };
                                 let mut encode_unsigned_subexp_with_ref = |v: usize, mx: usize, r: usize, coder: &mut BoolCoder| -> () {
                                     if (r<<1) <= mx {
-                                        let tv = inverse_recenter(r, v);
+                                        let tv = recenter(r, v);
                                         encode_subexp(tv, mx, coder);
                                     } else {
                                         let mut tv = mx - 1 - v;
-                                        tv = inverse_recenter(mx-1-r, tv);
-                                        encode_subexp(tv, mx-1-r, coder);
+                                        tv = recenter(mx-1-r, tv);
+                                        encode_subexp(tv, mx, coder);
                                     }
                                 };
                                 let mut encode_signed_subexp_with_ref = |v: isize, low: isize, high: isize, r: isize, coder: &mut BoolCoder| -> () {
-- 
2.43.0


From bd2b1b1345897cf4282ee4418084b4e2460fc9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:15 +0000
Subject: [PATCH 058/113] fix: the zoom of a ROTZOOM model is the same in both
 directions

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 1943b54..9ca95e9 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1322,7 +1322,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 encode_global_param(typ, rf, 5, &ecx, self.coder);
                                 } else {
                                     ecx.gm_params[rf][4] = -ecx.gm_params[rf][3];
-                                    ecx.gm_params[rf][5] = -ecx.gm_params[rf][2];
+                                    ecx.gm_params[rf][5] = ecx.gm_params[rf][2];
                                 }
                             }
                             if typ >= TRANSLATION {
-- 
2.43.0


From 74e9bafa0e210db5639f2ac542a1336184492506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:16 +0000
Subject: [PATCH 059/113] fix: previous global motion is the identity without a
 primary reference

---
 src/obu_encoder.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 9ca95e9..292ed7e 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -742,6 +742,11 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         // TODO
                         // init non coeff cdfs
                         // setup past independence
+                        for rf in (LAST_FRAME as usize)..(ALTREF_FRAME as usize + 1) {
+                            for i in 0..6 {
+                                ecx.prev_gm_params[rf][i] = if i%3==2 { 1<<WARPEDMODEL_PREC_BITS } else { 0 };
+                            }
+                        }
                     } else {
                         // TODO
                         // load cdfs( ref_frame_idx[ primary_ref_frame ] )
-- 
2.43.0


From 36af99179aec0e11324cbdb138388eafd3312d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:16 +0000
Subject: [PATCH 060/113] fix: cdef parameters only where the sequence enables
 cdef

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 292ed7e..7ba7457 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1062,7 +1062,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     }
 
                     // cdef params
-                    if ecx.coded_lossless || frame.allow_intrabc {
+                    if ecx.coded_lossless || frame.allow_intrabc || !ecx.enable_cdef {
                         frame.cdef_params.cdef_bits = 0;
                         frame.cdef_params.cdef_y_pri_strength[0] = 0;
                         frame.cdef_params.cdef_y_sec_strength[0] = 0;
-- 
2.43.0


From 16fa987ff408f2472fa54951c1d01b8759c6579c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:17 +0000
Subject: [PATCH 061/113] fix: cdef strengths of frames without cdef

The vectors of Frame::new are empty, and indexing them panicked.
---
 src/obu_encoder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 7ba7457..35cb734 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1064,10 +1064,10 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     // cdef params
                     if ecx.coded_lossless || frame.allow_intrabc || !ecx.enable_cdef {
                         frame.cdef_params.cdef_bits = 0;
-                        frame.cdef_params.cdef_y_pri_strength[0] = 0;
-                        frame.cdef_params.cdef_y_sec_strength[0] = 0;
-                        frame.cdef_params.cdef_uv_pri_strength[0] = 0;
-                        frame.cdef_params.cdef_uv_sec_strength[0] = 0;
+                        frame.cdef_params.cdef_y_pri_strength = vec![0];
+                        frame.cdef_params.cdef_y_sec_strength = vec![0];
+                        frame.cdef_params.cdef_uv_pri_strength = vec![0];
+                        frame.cdef_params.cdef_uv_sec_strength = vec![0];
                         frame.cdef_params.cdef_damping = 3;
                     } else {
                         self.coder.push_bits_with_size(out_bits, (frame.cdef_params.cdef_damping-3) as u32, 2);
-- 
2.43.0


From 32776fa799492f1f3d7cae222bae373f19d1ca5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:18 +0000
Subject: [PATCH 062/113] fix: frame sizes take the number of bits the sequence
 header announced

---
 src/encoder.rs     |  4 ++++
 src/obu_encoder.rs | 18 ++++++++++--------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index ec55d6e..6d147c8 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -78,6 +78,8 @@ pub struct EncoderContext {
     pub tg_start: usize,
     pub tg_end: usize,
     pub frame_size_override_flag: bool,
+    pub frame_width_bits: u8,
+    pub frame_height_bits: u8,
     pub disable_frame_end_update_cdf: bool,
     pub tile_num: usize,
     pub delta_lf: [isize; FRAME_LF_COUNT],
@@ -171,6 +173,8 @@ impl EncoderContext {
         tg_start: 0,
         tg_end: 0,
         frame_size_override_flag: false,
+        frame_width_bits: 0,
+        frame_height_bits: 0,
         disable_frame_end_update_cdf: false,
         tile_num: 0,
         delta_lf: [0; FRAME_LF_COUNT],
diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 35cb734..3a7094d 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -117,6 +117,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                 self.coder.push_bits_with_size(out_bits, frame_height_bits_minus_1 as u32, 4);
                 let nw = frame_width_bits_minus_1 + 1;
                 let nh = frame_height_bits_minus_1 + 1;
+                ecx.frame_width_bits = nw;
+                ecx.frame_height_bits = nh;
                 let max_frame_width_minus_1 = sequence_header.max_frame_width - 1;
                 let max_frame_height_minus_1 = sequence_header.max_frame_height - 1;
                 self.coder.push_bits_with_size(out_bits, max_frame_width_minus_1 as u32, nw);
@@ -487,8 +489,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     if frame.frame_type==KEY_FRAME {
                         // frame size
                         if ecx.frame_size_override_flag {
-                            let nw = msb16((frame.frame_width-1) as u16);
-                            let nh = msb16((frame.frame_height-1) as u16);
+                            let nw = ecx.frame_width_bits;
+                            let nh = ecx.frame_height_bits;
                             self.coder.push_bits_with_size(out_bits, (frame.frame_width-1) as u32, nw as u8);
                             self.coder.push_bits_with_size(out_bits, (frame.frame_height-1) as u32, nh as u8);
                         } else {
@@ -529,8 +531,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         if frame.frame_type==INTRA_ONLY_FRAME {
                             // frame size
                             if ecx.frame_size_override_flag {
-                                let nw = msb16((frame.frame_width-1) as u16);
-                                let nh = msb16((frame.frame_height-1) as u16);
+                                let nw = ecx.frame_width_bits;
+                                let nh = ecx.frame_height_bits;
                                 self.coder.push_bits_with_size(out_bits, (frame.frame_width-1) as u32, nw as u8);
                                 self.coder.push_bits_with_size(out_bits, (frame.frame_height-1) as u32, nh as u8);
                             } else {
@@ -601,8 +603,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 if !found_ref {
                                     // frame size
                                     if ecx.frame_size_override_flag {
-                                        let nw = msb16((frame.frame_width-1) as u16);
-                                        let nh = msb16((frame.frame_height-1) as u16);
+                                        let nw = ecx.frame_width_bits;
+                                        let nh = ecx.frame_height_bits;
                                         self.coder.push_bits_with_size(out_bits, (frame.frame_width-1) as u32, nw as u8);
                                         self.coder.push_bits_with_size(out_bits, (frame.frame_height-1) as u32, nh as u8);
                                     } else {
@@ -654,8 +656,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             } else {
                                 // frame size
                                 if ecx.frame_size_override_flag {
-                                    let nw = msb16((frame.frame_width-1) as u16);
-                                    let nh = msb16((frame.frame_height-1) as u16);
+                                    let nw = ecx.frame_width_bits;
+                                    let nh = ecx.frame_height_bits;
                                     self.coder.push_bits_with_size(out_bits, (frame.frame_width-1) as u32, nw as u8);
                                     self.coder.push_bits_with_size(out_bits, (frame.frame_height-1) as u32, nh as u8);
                                 } else {
-- 
2.43.0


From 1d0207770443531ae365dea74adc33ccc1292a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:19 +0000
Subject: [PATCH 063/113] fix: the render size is compared with the upscaled
 size

A frame with superres and a render size equal to its coded size was announced as rendered at the upscaled size.
---
 src/obu_encoder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 3a7094d..6d0b9a8 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -514,7 +514,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         }
 
                         // render size
-                        let render_and_frame_size_different = frame.frame_width!=frame.render_width || frame.frame_height!=frame.render_height;
+                        let render_and_frame_size_different = ecx.upscaled_width!=frame.render_width || frame.frame_height!=frame.render_height;
                         self.coder.push_bit(out_bits, render_and_frame_size_different as u8);
                         if render_and_frame_size_different {
                             self.coder.push_bits_with_size(out_bits, (frame.render_width-1) as u32, 16);
@@ -556,7 +556,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             }
 
                             // render size
-                            let render_and_frame_size_different = frame.frame_width!=frame.render_width || frame.frame_height!=frame.render_height;
+                            let render_and_frame_size_different = ecx.upscaled_width!=frame.render_width || frame.frame_height!=frame.render_height;
                             self.coder.push_bit(out_bits, render_and_frame_size_different as u8);
                             if render_and_frame_size_different {
                                 self.coder.push_bits_with_size(out_bits, (frame.render_width-1) as u32, 16);
@@ -628,7 +628,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                     }
 
                                     // render size
-                                    let render_and_frame_size_different = frame.frame_width!=frame.render_width || frame.frame_height!=frame.render_height;
+                                    let render_and_frame_size_different = ecx.upscaled_width!=frame.render_width || frame.frame_height!=frame.render_height;
                                     self.coder.push_bit(out_bits, render_and_frame_size_different as u8);
                                     if render_and_frame_size_different {
                                         self.coder.push_bits_with_size(out_bits, (frame.render_width-1) as u32, 16);
@@ -681,7 +681,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 }
 
                                 // render size
-                                let render_and_frame_size_different = frame.frame_width!=frame.render_width || frame.frame_height!=frame.render_height;
+                                let render_and_frame_size_different = ecx.upscaled_width!=frame.render_width || frame.frame_height!=frame.render_height;
                                 self.coder.push_bit(out_bits, render_and_frame_size_different as u8);
                                 if render_and_frame_size_different {
                                     self.coder.push_bits_with_size(out_bits, (frame.render_width-1) as u32, 16);
-- 
2.43.0


From 5a292b8752519ebe0a6286a6f43194e372d85978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:19 +0000
Subject: [PATCH 064/113] fix: allow_intrabc, allow_high_precision_mv and
 use_ref_frame_mvs are written as configured

They were reset before they were written. Key frames with superres have no allow_intrabc.
---
 src/obu_encoder.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 6d0b9a8..d208d2b 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -469,9 +469,12 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             }
                         }
                     }
-                    frame.allow_high_precision_mv = false;
-                    frame.use_ref_frame_mvs = false;
-                    frame.allow_intrabc = false;
+                    if ecx.frame_is_intra {
+                        frame.allow_high_precision_mv = false;
+                        frame.use_ref_frame_mvs = false;
+                    } else {
+                        frame.allow_intrabc = false;
+                    }
                     if frame.frame_type==SWITCH_FRAME || (frame.frame_type==KEY_FRAME && ecx.show_frame) {
                         ecx.refresh_frame_flags = self.all_frames as u8;
                     } else {
@@ -524,8 +527,10 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             frame.render_height = frame.frame_height;
                         }
 
-                        if frame.allow_screen_content_tools>0 {
+                        if frame.allow_screen_content_tools>0 && ecx.upscaled_width==frame.frame_width {
                             self.coder.push_bit(out_bits, frame.allow_intrabc as u8);
+                        } else {
+                            frame.allow_intrabc = false;
                         }
                     } else {
                         if frame.frame_type==INTRA_ONLY_FRAME {
@@ -568,6 +573,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
 
                             if frame.allow_screen_content_tools>0 && ecx.upscaled_width==frame.frame_width {
                                 self.coder.push_bit(out_bits, frame.allow_intrabc as u8);
+                            } else {
+                                frame.allow_intrabc = false;
                             }
                         } else {
                             if !ecx.enable_order_hint {
-- 
2.43.0


From b7f3888db6c4fa328ec1e0a39a715039dc44f493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:20 +0000
Subject: [PATCH 065/113] fix: delta_q_res has two bits

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index d208d2b..d581313 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -959,7 +959,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         frame.delta_q_params.delta_q_present = false;
                     }
                     if frame.delta_q_params.delta_q_present {
-                        self.coder.push_bit(out_bits, frame.delta_q_params.delta_q_res as u8);
+                        self.coder.push_bits_with_size(out_bits, frame.delta_q_params.delta_q_res as u32, 2);
                     } else {
                         frame.delta_q_params.delta_q_res = 0;
                     }
-- 
2.43.0


From 070bf62c5c33845bffc438debbeed9e8f81c8db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:21 +0000
Subject: [PATCH 066/113] fix: no delta lf without delta q

---
 src/obu_encoder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index d581313..2ad52e9 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -978,6 +978,10 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             frame.delta_lf_params.delta_lf_res = 0;
                             frame.delta_lf_params.delta_lf_multi = false;
                         }
+                    } else {
+                        frame.delta_lf_params.delta_lf_present = false;
+                        frame.delta_lf_params.delta_lf_res = 0;
+                        frame.delta_lf_params.delta_lf_multi = false;
                     }
 
                     if frame.primary_ref_frame==PRIMARY_REF_NONE as u8 {
-- 
2.43.0


From 7597e84c6adbcf342862a4406cf16907d92b6636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:21 +0000
Subject: [PATCH 067/113] fix: the sign bias is set for references after the
 frame

The unsigned difference underflowed for references before the frame.
---
 src/obu_encoder.rs | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 2ad52e9..aace71c 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -7,6 +7,7 @@ use obu::OBU;
 use obu::OBU::*;
 use util::*;
 use constants::*;
+use common::get_relative_dist;
 use sequence_header::*;
 use constants::ColorPrimaries::*;
 use constants::TransferCharacteristics::*;
@@ -728,17 +729,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             if !ecx.enable_order_hint {
                                 ecx.ref_frame_sign_bias[ref_frame] = 0;
                             } else {
-                                ecx.ref_frame_sign_bias[ref_frame] = {
-                                    // get relative dist
-                                    if !ecx.enable_order_hint {
-                                        0
-                                    } else {
-                                        let mut diff = hint - frame.order_hint as usize;
-                                        let m = 1 << (ecx.order_hint_bits-1);
-                                        diff = (diff&(m-1)) - (diff&m);
-                                        diff
-                                    }
-                                };
+                                let dist = get_relative_dist(hint, frame.order_hint as usize, ecx.enable_order_hint, ecx.order_hint_bits as usize);
+                                ecx.ref_frame_sign_bias[ref_frame] = (dist>0) as usize;
                             }
                         }
                     }
-- 
2.43.0


From 2d09c4a60fa4517f4ac10dc62e125b4348e1dfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:22 +0000
Subject: [PATCH 068/113] fix: write ref_order_hint in error resilient frames

---
 src/obu_encoder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index aace71c..4e13fc4 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -484,6 +484,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     if !ecx.frame_is_intra || ecx.refresh_frame_flags != self.all_frames as u8 {
                         if frame.error_resilient_mode && ecx.enable_order_hint {
                             for i in 0..NUM_REF_FRAMES {
+                                self.coder.push_bits_with_size(out_bits, frame.ref_order_hint[i] as u32, self.order_hint_bits as u8);
                                 if frame.ref_order_hint[i] != ecx.ref_order_hint[i] {
                                     ecx.ref_valid[i] = false;
                                 }
-- 
2.43.0


From 82c681a14374a0b42c59ed9a5227556ff99fdf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:23 +0000
Subject: [PATCH 069/113] fix: show_existing_frame ends the frame header and
 loads the film grain

The next frame header was taken for a copy of this one and nothing was written.
---
 src/obu_encoder.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 4e13fc4..026cff9 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -363,10 +363,11 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             if frame.frame_type==KEY_FRAME {
                                 ecx.refresh_frame_flags = self.all_frames as u8;
                             }
-                            if let Some(ref fgp) = ecx.film_grain_params {
+                            if ecx.film_grain_params.is_some() {
                                 // load grain params
-                                // TODO
+                                ecx.film_grain_params = Some(ecx.ref_film_grain_params[ecx.frame_to_show_map_idx as usize].clone());
                             }
+                            ecx.seen_frame_header = false;
                             return;
                         }
                         self.coder.push_bits_with_size(out_bits, frame.frame_type as u32, 2);
-- 
2.43.0


From 7c1dd246f09fc89890d0a45ee34ada0f162bef74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:12 +0000
Subject: [PATCH 070/113] fix: repeated and redundant frame headers are copies
 of the frame header

Both were written with an empty payload.
---
 src/obu_encoder.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 026cff9..5ea6ddf 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -38,6 +38,7 @@ pub struct OBUEncoder<'a, 'b> where 'a: 'b {
     tile_num: usize,
     id_len: usize,
     all_frames: usize,
+    frame_header_bits: Vec<u8>,
     ectx: Rc<RefCell<EncoderContext>>,
 }
 
@@ -53,6 +54,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
             tile_num: 1,
             id_len: 0,
             all_frames: 0,
+            frame_header_bits: vec![],
             ectx: Rc::clone(ectx),
         }
     }
@@ -325,8 +327,10 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
             &mut OBU_FRAME_HEADER(ref mut frame) => {
                 let mut ecx = self.ectx.borrow_mut();
                 if ecx.seen_frame_header {
-                    // TODO frame header copy
+                    // frame header copy
+                    self.coder.push_bits(out_bits, &self.frame_header_bits);
                 } else {
+                    let header_start = out_bits.len();
                     ecx.seen_frame_header = true;
 
                     // uncompressed header
@@ -1444,11 +1448,15 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     } else {
                         self.tile_num = 0;
                         ecx.seen_frame_header = true;
+                        self.frame_header_bits = out_bits[header_start..].to_vec();
                     }
                 }
             },
             &mut OBU_REDUNDANT_FRAME_HEADER => {
-
+                if self.ectx.borrow().seen_frame_header {
+                    // frame header copy
+                    self.coder.push_bits(out_bits, &self.frame_header_bits);
+                }
             },
             &mut OBU_TILE_GROUP(ref mut frame) => {
                 let mut ecx = self.ectx.borrow_mut();
-- 
2.43.0


From 77735932b04e0f4904878fc63b713eb293cbc621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:10 +0000
Subject: [PATCH 071/113] verif: arithmetic macros callable under --cfg
 av1enc_verif

---
 src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 23b6266..312dce7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -32,4 +32,14 @@ pub mod verif {
     pub mod obu_encoder { pub use obu_encoder::*; }
     pub mod tile_encoder { pub use tile_encoder::*; }
     pub mod encoder { pub use encoder::*; }
+    // the macros of util, callable
+    pub mod math {
+        pub fn abs(x: isize) -> isize { Abs!(x) }
+        pub fn min(x: isize, y: isize) -> isize { Min!(x, y) }
+        pub fn max(x: isize, y: isize) -> isize { Max!(x, y) }
+        pub fn clip3(lo: isize, hi: isize, x: isize) -> isize { Clip3!(lo, hi, x) }
+        pub fn round2(x: isize, n: usize) -> isize { Round2!(x, n) }
+        pub fn round2_signed(x: isize, n: usize) -> isize { Round2Signed!(x, n) }
+        pub fn floor_log2(x: usize) -> isize { FloorLog2!(x) }
+    }
 }
-- 
2.43.0


From 6eb83870bb00ed23c70290cd80200edfa8a49534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:10 +0000
Subject: [PATCH 072/113] fix: keep the sign when rounding negative numbers

Round2Signed returned the magnitude for negative numbers, so negative global motion
turned into positive motion vectors.
---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 3d7a41b..ed88dc8 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -27,7 +27,7 @@ macro_rules! Round2 {
 }
 
 macro_rules! Round2Signed {
-    ($x: expr, $n: expr) => ( if $x>=0 { Round2!($x, $n) } else { Round2!(-$x, $n) } );
+    ($x: expr, $n: expr) => ( if $x>=0 { Round2!($x, $n) } else { -Round2!(-$x, $n) } );
 }
 
 #[macro_export]
-- 
2.43.0


From 2e97564104615c2426359dd004b603a336ae2bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:11 +0000
Subject: [PATCH 073/113] fix: code the restoration flags of a unit as symbols

They were put between the entropy-coded bits as raw bits, which no decoder can separate again.
---
 src/tile_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index a16adde..05dc935 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -214,12 +214,12 @@ impl<'b> TileEncoder<'b> {
                             RESTORE_NONE => RESTORE_NONE,
                             RESTORE_WIENER => {
                                 let use_wiener = sb.lr_units[plane][unit_row-unit_row_start][unit_col-unit_col_start].use_wiener;
-                                self.coder.push_bit(out_bits, use_wiener as u8);
+                                self.coder.encode_use_wiener(out_bits, &mut self.cdf, use_wiener as usize);
                                 if use_wiener { RESTORE_WIENER }  else { RESTORE_NONE }
                             },
                             RESTORE_SGRPROJ => {
                                 let use_sgrproj = sb.lr_units[plane][unit_row-unit_row_start][unit_col-unit_col_start].use_sgrproj;
-                                self.coder.push_bit(out_bits, use_sgrproj as u8);
+                                self.coder.encode_use_sgrproj(out_bits, &mut self.cdf, use_sgrproj as usize);
                                 if use_sgrproj { RESTORE_SGRPROJ }  else { RESTORE_NONE }
                             },
                             _ => sb.lr_units[plane][unit_row-unit_row_start][unit_col-unit_col_start].restoration_type,
-- 
2.43.0


From d172319b4f750295ce9ee58c9dcdabae02a2d24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:12 +0000
Subject: [PATCH 074/113] fix: code the restoration type of a unit where it is
 switchable

---
 src/tile_encoder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 05dc935..d063462 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -222,7 +222,11 @@ impl<'b> TileEncoder<'b> {
                                 self.coder.encode_use_sgrproj(out_bits, &mut self.cdf, use_sgrproj as usize);
                                 if use_sgrproj { RESTORE_SGRPROJ }  else { RESTORE_NONE }
                             },
-                            _ => sb.lr_units[plane][unit_row-unit_row_start][unit_col-unit_col_start].restoration_type,
+                            _ => {
+                                let restoration_type = sb.lr_units[plane][unit_row-unit_row_start][unit_col-unit_col_start].restoration_type;
+                                self.coder.encode_restoration_type(out_bits, &mut self.cdf, restoration_type as usize);
+                                restoration_type
+                            },
                         };
                         frame.lr_type[plane][unit_row][unit_col] = restoration_type;
 
-- 
2.43.0


From 805c4988965db02318e6334bc9af3df8db82690f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:13 +0000
Subject: [PATCH 075/113] fix: borrow the encoder context once while coding
 Wiener coefficients

The second borrow panicked on the first coefficient.
---
 src/tile_encoder.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index d063462..89c165f 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -293,7 +293,6 @@ impl<'b> TileEncoder<'b> {
                                     let v = sb.lr_units[plane][unit_row-unit_row_start][unit_col-unit_col_start].lr_wiener[pass][j];
                                     encode_signed_subexp_with_ref_bool(v, min, max+1, k as usize, ecx.ref_lr_wiener[plane][pass][j], self.coder, out_bits);
                                     frame.lr_wiener[plane][unit_row][unit_col][pass][j] = v;
-                                    let mut ecx = self.ectx.borrow_mut();
                                     ecx.ref_lr_wiener[plane][pass][j] = v;
                                 }
                             }
-- 
2.43.0


From 58aae47c479b7d1a39f102df0e931133f3c1f661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:15 +0000
Subject: [PATCH 076/113] fix: recentre restoration parameters with the inverse
 of the decoder's mapping

---
 src/tile_encoder.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 89c165f..ee41afe 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -230,13 +230,13 @@ impl<'b> TileEncoder<'b> {
                         };
                         frame.lr_type[plane][unit_row][unit_col] = restoration_type;
 
-                        let inverse_recenter = |r: usize, v: usize| -> usize {
+                        let recenter = |r: usize, v: usize| -> usize {
                             if v > 2*r {
                                 v
-                            } else if v&1 > 0 {
-                                r - ((v+1)>>1)
+                            } else if v >= r {
+                                (v-r) << 1
                             } else {
-                                r + (v>>1)
+                                ((r-v) << 1) - 1
                             }
                         };
                         let mut encode_subexp_bool = |v: usize, num_syms: usize, k: usize, coder: &mut BoolCoder, out_bits: &mut Vec<u8>| -> () {
@@ -265,11 +265,11 @@ impl<'b> TileEncoder<'b> {
                         };
                         let mut encode_unsigned_subexp_with_ref_bool = |v: usize, mx: usize, k: usize, r: usize, coder: &mut BoolCoder, out_bits: &mut Vec<u8>| -> () {
                             if (r<<1) <= mx {
-                                let tv = inverse_recenter(r, v);
+                                let tv = recenter(r, v);
                                 encode_subexp_bool(tv, mx, k, coder, out_bits);
                             } else {
                                 let mut tv = mx - 1 - v;
-                                tv = inverse_recenter(mx-1-r, tv);
+                                tv = recenter(mx-1-r, tv);
                                 encode_subexp_bool(tv, mx-1-r, k, coder, out_bits);
                             }
                         };
-- 
2.43.0


From 233c58bfb420dae8e96a42892a055869dfcfeb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:16 +0000
Subject: [PATCH 077/113] fix: code restoration parameters above the middle
 with their full range

---
 src/tile_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index ee41afe..3ba57e2 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -270,7 +270,7 @@ impl<'b> TileEncoder<'b> {
                             } else {
                                 let mut tv = mx - 1 - v;
                                 tv = recenter(mx-1-r, tv);
-                                encode_subexp_bool(tv, mx-1-r, k, coder, out_bits);
+                                encode_subexp_bool(tv, mx, k, coder, out_bits);
                             }
                         };
                         let mut encode_signed_subexp_with_ref_bool = |v: isize, low: isize, high: isize, k: usize, r: isize, coder: &mut BoolCoder, out_bits: &mut Vec<u8>| -> () {
-- 
2.43.0


From 61bad2255a774c066b3daa089dfac79ac50fa3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:18 +0000
Subject: [PATCH 078/113] fix: keep the last class of restoration parameters
 inside the entropy-coded data

encode_ns writes raw header bits.
---
 src/tile_encoder.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 3ba57e2..dfa8340 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -247,7 +247,15 @@ impl<'b> TileEncoder<'b> {
                                 let a = 1 << b2;
                                 if num_syms <= mk+3*a {
                                     let tv = v - mk;
-                                    coder.encode_ns(out_bits, tv as u64, (num_syms-mk) as u64);
+                                    let n = num_syms - mk;
+                                    let w = FloorLog2!(n) + 1;
+                                    let m = (1<<w) - n;
+                                    if tv < m {
+                                        coder.encode_literal(out_bits, tv as u64, (w-1) as u8);
+                                    } else {
+                                        coder.encode_literal(out_bits, ((tv+m)>>1) as u64, (w-1) as u8);
+                                        coder.encode_literal(out_bits, ((tv+m)&1) as u64, 1);
+                                    }
                                     break;
                                 } else {
                                     let tv = v - mk;
-- 
2.43.0


From a97279fe81b0161eca922d554c2db32f59e663fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:19 +0000
Subject: [PATCH 079/113] fix: infer the second self-guided weight at
 projection precision

---
 src/tile_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index dfa8340..9689de8 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -319,7 +319,7 @@ impl<'b> TileEncoder<'b> {
                                 } else {
                                     v = 0;
                                     if i==1 {
-                                        v = Clip3!(min, max, (1<<SGRPROJ_PARAMS_BITS) - ecx.ref_sgr_xqd[plane][0]);
+                                        v = Clip3!(min, max, (1<<SGRPROJ_PRJ_BITS) - ecx.ref_sgr_xqd[plane][0]);
                                     }
                                 }
                                 frame.lr_sgr_xqd[plane][unit_row][unit_col][i] = v;
-- 
2.43.0


From 1b31b1cd1f8e2d4cfc2dda5a448610018f8b4474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:42 +0000
Subject: [PATCH 080/113] fix: look at the block above right only where there
 is one

At the edges of a tile, and where that block is coded later, the scan panicked.
---
 src/tile_encoder.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 9689de8..3ffb9be 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -1050,9 +1050,11 @@ impl<'b> TileEncoder<'b> {
             let mv_row = self.mi_row as isize + delta_row;
             let mv_col = self.mi_col as isize + delta_col;
             let weight = 4;
-            let mi = frame.get_mi(mv_row as usize, mv_col as usize).unwrap();
-            if self.is_inside(mv_row, mv_col) && mi.ref_frame[0]!=NONE { // FIXME
-                self.add_ref_mv_candidate(mv_row as usize, mv_col as usize, is_compound, weight, &mi, frame, part_tree);
+            if self.is_inside(mv_row, mv_col) {
+                // None: not coded yet
+                if let Some(mi) = frame.get_mi(mv_row as usize, mv_col as usize) {
+                    self.add_ref_mv_candidate(mv_row as usize, mv_col as usize, is_compound, weight, &mi, frame, part_tree);
+                }
             }
         }
         if self.found_match {
-- 
2.43.0


From 4e0b45296d2868f2256b193a6aa15bf731b4260a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:44 +0000
Subject: [PATCH 081/113] fix: take the skip flag of a block over once it is
 coded

It stayed false, so skipped blocks coded a segment id and a cdef index.
---
 src/tile_encoder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 3ffb9be..bde8963 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -629,6 +629,7 @@ impl<'b> TileEncoder<'b> {
             } else {
                 self.coder.encode_skip(out_bits, &mut self.cdf, part_tree.skip as usize, frame, self.mi_row, self.mi_col);
             }
+            self.skip = part_tree.skip;
 
             if !seg_id_pre_skip {
                 // intra segment id
-- 
2.43.0


From ce62b9cfa3d843f5bc07b536431b488c2052b93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:46 +0000
Subject: [PATCH 082/113] fix: code segment ids relative to the frame's last
 active segment

The tile encoder's copy was never set.
---
 src/tile_encoder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index bde8963..bc7b4bb 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -598,6 +598,7 @@ impl<'b> TileEncoder<'b> {
                     }
                 }
             };
+            self.last_active_seg_id = self.ectx.borrow_mut().last_active_seg_id;
             let v = neg_interleave(part_tree.segment_id, pred as usize, self.last_active_seg_id+1);
             self.coder.encode_segment_id(out_bits, &mut self.cdf, v, prev_u as isize, prev_l as isize, prev_ul as isize);
         }
-- 
2.43.0


From 8066a3f0f084f5dded8901f4662b6e0b80365a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:47 +0000
Subject: [PATCH 083/113] fix: interleave segment ids around their prediction
 without underflow

Both differences were computed as unsigned numbers, one of which is negative.
---
 src/tile_encoder.rs | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index bc7b4bb..37b463c 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -572,30 +572,15 @@ impl<'b> TileEncoder<'b> {
             part_tree.segment_id = pred as usize;
         } else {
             let neg_interleave = |v: usize, rf: usize, max: usize| -> usize {
+                let d = if v>rf { ((v-rf)<<1) - 1 } else { (rf-v)<<1 };
                 if rf==0{
                     v
                 } else if rf>=(max-1) {
                     max - 1 - v
                 } else if 2*rf < max {
-                    let d1 = ((v-rf)<<1) - 1;
-                    let d2 = (rf-v)<<1;
-                    if d1 <= 2*rf {
-                        d1
-                    } else if d2 <= 2*rf {
-                        d2
-                    } else {
-                        v
-                    }
+                    if d <= 2*rf { d } else { v }
                 } else {
-                    let d1 = ((v-rf)<<1) - 1;
-                    let d2 = (rf-v)<<1;
-                    if d1 <= 2*(max-rf-1) {
-                        d1
-                    } else if d2 <= 2*(max-rf-1) {
-                        d2
-                    } else {
-                        rf-v-1
-                    }
+                    if d <= 2*(max-rf-1) { d } else { max - 1 - v }
                 }
             };
             self.last_active_seg_id = self.ectx.borrow_mut().last_active_seg_id;
-- 
2.43.0


From 93d657d2c4da91f047861786806299149cabd824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:49 +0000
Subject: [PATCH 084/113] fix: record the cdef index of a block at its own
 position only

Everything above and to the left was overwritten.
---
 src/tile_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 37b463c..2649879 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -640,9 +640,9 @@ impl<'b> TileEncoder<'b> {
                     let w4 = num_4x4_blocks_wide[part_tree.bsize as usize];
                     let h4 = num_4x4_blocks_high[part_tree.bsize as usize];
                     {
-                        let mut i = 0;
+                        let mut i = r;
                         while i < r+h4 {
-                            let mut j = 0;
+                            let mut j = c;
                             while j < c+w4 {
                                 frame.cdef_idx[i][j] = part_tree.cdef_idx;
                                 j += cdef_size4;
-- 
2.43.0


From 8d1be6104d6ddeeac3f331ab89a46e2963219a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:52 +0000
Subject: [PATCH 085/113] fix: code the remainder of large quantizer index
 deltas

---
 src/tile_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 2649879..452b21a 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -669,7 +669,7 @@ impl<'b> TileEncoder<'b> {
                         self.coder.encode_delta_q_abs(out_bits, &mut self.cdf, DELTA_Q_SMALL);
                         let delta_q_rem_bits = msb16((delta_q_abs-1) as u16);
                         self.coder.encode_literal(out_bits, (delta_q_rem_bits-1) as u64, 3);
-                        let delta_q_abs_bits = (delta_q_abs-1) - (1<<(delta_q_rem_bits-1));
+                        let delta_q_abs_bits = (delta_q_abs-1) - (1<<delta_q_rem_bits);
                         self.coder.encode_literal(out_bits, delta_q_abs_bits as u64, delta_q_rem_bits);
                     }
                     let delta_q_sign_bit = if delta_q_index < 0 { 1 } else { 0 };
-- 
2.43.0


From a3ec325a4e83142b6a56278b1ba33e986379772f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:54 +0000
Subject: [PATCH 086/113] fix: code the remainder of large loop filter deltas

---
 src/tile_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 452b21a..f387a9c 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -698,8 +698,8 @@ impl<'b> TileEncoder<'b> {
                             self.coder.encode_delta_lf_abs(out_bits, &mut self.cdf, DELTA_LF_SMALL, frame.delta_lf_params.delta_lf_multi as usize, i);
                             let delta_lf_rem_bits = msb16((delta_lf_abs-1) as u16);
                             self.coder.encode_literal(out_bits, (delta_lf_rem_bits-1) as u64, 3);
-                            let delta_lf_abs_bits = (delta_lf_abs-1) - (1<<(delta_lf_rem_bits-1));
-                            self.coder.encode_literal(out_bits, (delta_lf_abs_bits-1) as u64, delta_lf_rem_bits);
+                            let delta_lf_abs_bits = (delta_lf_abs-1) - (1<<delta_lf_rem_bits);
+                            self.coder.encode_literal(out_bits, delta_lf_abs_bits as u64, delta_lf_rem_bits);
                         }
                         let delta_lf_sign_bits = if delta_lf < 0 { 1 } else { 0 };
                         self.coder.encode_literal(out_bits, delta_lf_sign_bits as u64, 1);
-- 
2.43.0


From 0da2e32facea496709f689a70a10f77ac26ec251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:55 +0000
Subject: [PATCH 087/113] fix: tell LAST3 and GOLDEN apart as second
 unidirectional reference

---
 src/tile_encoder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index f387a9c..6e43f0b 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -765,6 +765,10 @@ impl<'b> TileEncoder<'b> {
                                 if !uni_comp_ref {
                                     let uni_comp_ref_p1 = part_tree.ref_frame[0]==LAST_FRAME && [GOLDEN_FRAME, LAST3_FRAME].contains(&part_tree.ref_frame[1]);
                                     self.coder.encode_uni_comp_ref_p1(out_bits, &mut self.cdf, uni_comp_ref_p1 as usize, frame, self.mi_row, self.mi_col);
+                                    if uni_comp_ref_p1 {
+                                        let uni_comp_ref_p2 = part_tree.ref_frame[1]==GOLDEN_FRAME;
+                                        self.coder.encode_uni_comp_ref_p2(out_bits, &mut self.cdf, uni_comp_ref_p2 as usize, frame, self.mi_row, self.mi_col);
+                                    }
                                 }
                             } else {
                                 let comp_ref = [GOLDEN_FRAME, LAST3_FRAME].contains(&part_tree.ref_frame[0]);
-- 
2.43.0


From 36bd31cdc4a5f4c38f721b8b03b8eccc79f507f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:58 +0000
Subject: [PATCH 088/113] fix: code the backward reference of compound blocks

The second element depended on the forward reference and used its table.
---
 src/tile_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 6e43f0b..2edaec5 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -783,9 +783,9 @@ impl<'b> TileEncoder<'b> {
 
                                 let comp_bwdref = part_tree.ref_frame[1]==ALTREF_FRAME;
                                 self.coder.encode_comp_bwdref(out_bits, &mut self.cdf, comp_bwdref as usize, frame, self.mi_row, self.mi_col);
-                                if !comp_ref {
+                                if !comp_bwdref {
                                     let comp_bwdref_p1 = part_tree.ref_frame[1]==ALTREF2_FRAME;
-                                    self.coder.encode_comp_ref_p1(out_bits, &mut self.cdf, comp_bwdref_p1 as usize, frame, self.mi_row, self.mi_col);
+                                    self.coder.encode_comp_bwdref_p1(out_bits, &mut self.cdf, comp_bwdref_p1 as usize, frame, self.mi_row, self.mi_col);
                                 }
                             }
                         } else {
-- 
2.43.0


From 42486e5623f888b558f9e13a9433599bb86874a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:59 +0000
Subject: [PATCH 089/113] fix: remember the prediction mode of compound blocks

The motion vectors were assigned by the mode of the block before.
---
 src/tile_encoder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 2edaec5..b1f9d63 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -830,6 +830,7 @@ impl<'b> TileEncoder<'b> {
                     } else if is_compound {
                         let compound_mode = part_tree.compound_mode as usize - NEAREST_NEARESTMV as usize;
                         self.coder.encode_compound_mode(out_bits, &mut self.cdf, compound_mode, self.ref_mv_context, self.new_mv_context);
+                        self.y_mode = part_tree.compound_mode as usize;
                     } else {
                         self.coder.encode_new_mv(out_bits, &mut self.cdf, part_tree.new_mv as usize, self.new_mv_context);
                         if !part_tree.new_mv {
-- 
2.43.0


From 284251b1d700ff520960bdf7778eae271b0dff0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:01 +0000
Subject: [PATCH 090/113] fix: leave the compound mode of a block alone while
 assigning motion vectors

It was replaced by the mode of the last reference.
---
 src/tile_encoder.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index b1f9d63..4a75326 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -1334,8 +1334,8 @@ impl<'b> TileEncoder<'b> {
 
     pub fn assign_mv(&mut self, is_compound: bool, frame: &mut Frame, out_bits: &mut Vec<u8>, part_tree: &mut PartitionTree) {
         for i in 0..(1+is_compound as usize) {
-            if part_tree.use_intrabc {
-                part_tree.compound_mode = NEWMV;
+            let comp_mode = if part_tree.use_intrabc {
+                NEWMV
             } else {
                 let get_mode = |ref_list: usize| -> YMode {
                     let y_mode = self.y_mode;
@@ -1359,8 +1359,8 @@ impl<'b> TileEncoder<'b> {
                         } else { GLOBALMV }
                     };
                 };
-                part_tree.compound_mode = get_mode(i);
-            }
+                get_mode(i)
+            };
             if part_tree.use_intrabc {
                 self.pred_mv[0] = self.ref_stack_mv[0][0];
                 if self.pred_mv[0]==MotionVector::new(0, 0) {
@@ -1381,17 +1381,17 @@ impl<'b> TileEncoder<'b> {
                         );
                     }
                 }
-            } else if part_tree.compound_mode==GLOBALMV {
+            } else if comp_mode==GLOBALMV {
                 self.pred_mv[i] = self.global_mvs[i];
             } else {
-                let pos = if part_tree.compound_mode==NEWMV && self.num_mv_found<=1 {
+                let pos = if comp_mode==NEWMV && self.num_mv_found<=1 {
                     0
-                } else if part_tree.compound_mode==NEARESTMV {
+                } else if comp_mode==NEARESTMV {
                     0
                 } else { self.ref_mv_idx };
                 self.pred_mv[i] = self.ref_stack_mv[pos][i];
             }
-            if part_tree.compound_mode==NEWMV {
+            if comp_mode==NEWMV {
                 // encode mv
                 let mut diff_mv = part_tree.mvs[0] - self.pred_mv[0];
                 if part_tree.use_intrabc {
-- 
2.43.0


From d0c0809bab3eb1fb5708b23ba316a1ba4239c2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:03 +0000
Subject: [PATCH 091/113] fix: code the difference of the motion vector at hand

The second reference repeated the difference of the first.
---
 src/tile_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 4a75326..f9b102a 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -1393,7 +1393,7 @@ impl<'b> TileEncoder<'b> {
             }
             if comp_mode==NEWMV {
                 // encode mv
-                let mut diff_mv = part_tree.mvs[0] - self.pred_mv[0];
+                let diff_mv = part_tree.mvs[i] - self.pred_mv[i];
                 if part_tree.use_intrabc {
                     self.mv_ctx = MV_INTRABC_CONTEXT;
                 } else {
-- 
2.43.0


From b0df3723658b249c50217258e3ecc67938f1a5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:05 +0000
Subject: [PATCH 092/113] fix: code the components of motion vector differences

Only the joint was coded; sign and magnitude were missing, and the class was not that of the magnitude.
---
 src/tile_encoder.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index f9b102a..7a65744 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -1406,10 +1406,11 @@ impl<'b> TileEncoder<'b> {
                     _ => MV_JOINT_HNZVNZ,
                 };
                 self.coder.encode_mv_joint(out_bits, &mut self.cdf, mv_joint, self.mv_ctx);
-                let encode_mv_component = |v: isize, comp: usize| -> () {
+                let mut encode_mv_component = |v: isize, comp: usize| -> () {
                     let mv_sign = if v<0 { 1 } else { 0 };
-                    let mv_abs = Abs!(v) as usize;
-                    let mv_class = MVClass::from_u8(msb16(mv_abs as u16)/8).unwrap();
+                    self.coder.encode_mv_sign(out_bits, &mut self.cdf, mv_sign, self.mv_ctx, comp);
+                    let mv_abs = Abs!(v) as usize - 1;
+                    let mv_class = MVClass::from_u8(msb16((mv_abs >> 3) as u16)).unwrap();
                     self.coder.encode_mv_class(out_bits, &mut self.cdf, mv_class as usize, self.mv_ctx, comp);
                     if mv_class==MV_CLASS_0 {
                         let mv_class0_bit = (mv_abs >> 3) & 1;
@@ -1438,6 +1439,12 @@ impl<'b> TileEncoder<'b> {
                         }
                     }
                 };
+                if diff_mv.y != 0 {
+                    encode_mv_component(diff_mv.y, 0);
+                }
+                if diff_mv.x != 0 {
+                    encode_mv_component(diff_mv.x, 1);
+                }
             } else {
                 part_tree.mvs[i] = self.pred_mv[i];
             }
-- 
2.43.0


From e2fb900b30748762d41fa0f0cda5fa6a6c03a63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:03 +0000
Subject: [PATCH 093/113] fix: keep candidates at full precision where motion
 vectors have it

Candidates and global motion vectors were rounded to quarter samples even with
allow_high_precision_mv, where a decoder leaves them alone.
---
 src/tile_encoder.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 7a65744..0c8349a 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -931,6 +931,9 @@ impl<'b> TileEncoder<'b> {
                 };
                 let lower_mv_precision = |v: isize| -> isize {
                     let mut r = v;
+                    if frame.allow_high_precision_mv {
+                        return v;
+                    }
                     if frame.force_integer_mv>0 {
                         let a = Abs!(v);
                         let a_int = (a+3) >> 3;
@@ -1082,6 +1085,9 @@ impl<'b> TileEncoder<'b> {
                         }
                         let lower_mv_precision = |v: isize| -> isize {
                             let mut r = v;
+                            if frame.allow_high_precision_mv {
+                                return v;
+                            }
                             if frame.force_integer_mv>0 {
                                 let a = Abs!(v);
                                 let a_int = (a+3) >> 3;
@@ -1212,6 +1218,9 @@ impl<'b> TileEncoder<'b> {
                         };
                         let lower_mv_precision = |v: isize| -> isize {
                             let mut r = v;
+                            if frame.allow_high_precision_mv {
+                                return v;
+                            }
                             if frame.force_integer_mv>0 {
                                 let a = Abs!(v);
                                 let a_int = (a+3) >> 3;
@@ -1276,6 +1285,9 @@ impl<'b> TileEncoder<'b> {
                     }
                     let lower_mv_precision = |v: isize| -> isize {
                         let mut r = v;
+                        if frame.allow_high_precision_mv {
+                            return v;
+                        }
                         if frame.force_integer_mv>0 {
                             let a = Abs!(v);
                             let a_int = (a+3) >> 3;
-- 
2.43.0


From 18b6a455db48a2fee85373530d9a58f6aa814aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:04 +0000
Subject: [PATCH 094/113] fix: leave the motion field out where the frame does
 not use it

---
 src/tile_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 0c8349a..39b3763 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -1064,7 +1064,7 @@ impl<'b> TileEncoder<'b> {
             }
         }
         self.zero_mv_context = 0;
-        {
+        if frame.use_ref_frame_mvs {
             // temporal scan
             let bw4 = num_4x4_blocks_wide[part_tree.bsize as usize];
             let bh4 = num_4x4_blocks_high[part_tree.bsize as usize];
-- 
2.43.0


From 0ab1dde5f3df1c06f0953a5a59f62f063538c97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:05 +0000
Subject: [PATCH 095/113] fix: fill the first candidates with the global motion
 vectors

Without neighbours to take candidates from, a block was predicted from the
candidates of an earlier block.
---
 src/tile_encoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 39b3763..0a40c4a 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -1198,6 +1198,9 @@ impl<'b> TileEncoder<'b> {
                 }
             }
         }
+        for idx in self.num_mv_found..2 {
+            self.ref_stack_mv[idx] = self.global_mvs;
+        }
     }
 
     pub fn add_ref_mv_candidate(&mut self, mv_row: usize, mv_col: usize, is_compound: bool, weight: usize, mi: &ModeInfo, frame: &mut Frame, part_tree: &mut PartitionTree) {
-- 
2.43.0


From 186fec95db75b97cabac080130dc480a576a9b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:34 +0000
Subject: [PATCH 096/113] fix: hold mode info for every 4x4 unit of a frame

The grid was smaller than mi_rows x mi_cols unless the size is a multiple of 8.
---
 src/frame.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frame.rs b/src/frame.rs
index 58cc947..d083725 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -255,7 +255,7 @@ impl Frame {
             original_u: vec![0; ((width + 1) / 2) * ((height + 1) / 2)],
             original_v: vec![0; ((width + 1) / 2) * ((height + 1) / 2)],
 
-            mis: vec![vec![None; width as usize / 4]; height as usize / 4],
+            mis: vec![vec![None; 2 * ((width+7)>>3)]; 2 * ((height+7)>>3)],
             decoder_model_info: None,
             temporal_point_info: None,
             display_frame_id: None, // TODO
-- 
2.43.0


From c61105e366f924ea72962e44fda4edff079a69e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:36 +0000
Subject: [PATCH 097/113] fix: hold the cdef indices of a frame's superblocks

The record was empty, so coding any tile panicked.
---
 src/frame.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frame.rs b/src/frame.rs
index d083725..a4d1bfd 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -344,7 +344,8 @@ impl Frame {
             lr_wiener: vec![vec![vec![vec![vec![]]]]],
             lr_sgr_set: vec![vec![vec![]]],
             lr_sgr_xqd: vec![vec![vec![vec![]]]],
-            cdef_idx: vec![vec![]],
+            // up to the end of the last superblock
+            cdef_idx: vec![vec![-1; ((width+127)>>7) << 5]; ((height+127)>>7) << 5],
         }
     }
 
-- 
2.43.0


From 5eb9aed215d25b41971307f623e79d4c88615671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:37 +0000
Subject: [PATCH 098/113] fix: find the row and column of a tile in raster
 order

---
 src/tile_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 0a40c4a..8160eb1 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -113,8 +113,8 @@ impl<'b> TileEncoder<'b> {
         let mut sb_size;
         {
             let mut ecx = self.ectx.borrow_mut();
-            let tile_col = ecx.tile_num / frame.tile_cols();
-            let tile_row = ecx.tile_num / frame.tile_rows();
+            let tile_col = tile_num % frame.tile_cols();
+            let tile_row = tile_num / frame.tile_cols();
             self.mi_row_start = ecx.mi_row_starts[tile_row];
             self.mi_row_end = ecx.mi_row_starts[tile_row+1];
             self.mi_col_start = ecx.mi_col_starts[tile_col];
-- 
2.43.0


From 602e8d33d18e213b69a4333d72e7f7bf7c482cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:39 +0000
Subject: [PATCH 099/113] fix: start and finish the entropy coder with each
 tile

The last symbols of a tile were never written.
---
 src/tile_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 8160eb1..7c8b670 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -121,7 +121,7 @@ impl<'b> TileEncoder<'b> {
             self.mi_col_end = ecx.mi_col_starts[tile_col+1];
             ecx.current_q_index = frame.quantization_params.base_q_idx as usize;
 
-            // init symbol
+            self.coder.init_encoder();
 
             // clear above context
 
@@ -172,7 +172,7 @@ impl<'b> TileEncoder<'b> {
             r += sb_size4;
         }
 
-        // exit symbol
+        self.coder.exit_encoder(out_bits);
     }
 
     pub fn encode_lr(&mut self, out_bits: &mut Vec<u8>, frame: &mut Frame, r: usize, c: usize, bsize: BlockSize) -> () {
-- 
2.43.0


From 82ef9edb944bac47becf649917fb8ff5cf629ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:27 +0000
Subject: [PATCH 100/113] fix: try only the partitions a block size has

Others have no symbol, or blocks of no valid size.
---
 src/tile_encoder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 7c8b670..6888640 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -365,6 +365,10 @@ impl<'b> TileEncoder<'b> {
             PARTITION_HORZ_A, PARTITION_HORZ_B, PARTITION_VERT_A, PARTITION_VERT_B, PARTITION_HORZ_4, PARTITION_VERT_4
         ].iter() {
             let mut  part_bits: Vec<u8> = vec![];
+            if part_tree.bsize == BLOCK_8X8 && *partition as usize > PARTITION_SPLIT as usize ||
+               partition_subsize[*partition as usize][part_tree.bsize as usize] == BLOCK_INVALID {
+                continue;
+            }
             if part_tree.bsize < BLOCK_8X8 {
                 if *partition != PARTITION_NONE {
                     continue;
-- 
2.43.0


From 0dffa3137fb7ab0c624c52ae1e85b4b8bb88bfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:31 +0000
Subject: [PATCH 101/113] fix: place the last block of a vertical four-way
 partition in its column

---
 src/tile_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 6888640..2b43abd 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -501,7 +501,7 @@ impl<'b> TileEncoder<'b> {
                     self.encode_block(sb, r, c+quarter_block4x4*2, frame, &mut part_bits, &mut part_tree.partitions[2]);
                     if c+quarter_block4x4*3 < mi_cols {
                         part_tree.partitions.push(PartitionTree::new(sub_size));
-                        self.encode_block(sb, r+quarter_block4x4*3, c, frame, &mut part_bits, &mut part_tree.partitions[3]);
+                        self.encode_block(sb, r, c+quarter_block4x4*3, frame, &mut part_bits, &mut part_tree.partitions[3]);
                     }
                 },
             }
-- 
2.43.0


From 1a6418dba219cf561f4404b4abcac57a4c6f9c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:33 +0000
Subject: [PATCH 102/113] fix: record the mode info of coded blocks

Nothing was recorded, so later blocks found no neighbours: their contexts, segment id and
motion vector predictions differed from a decoder's.
---
 src/tile_encoder.rs | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 2b43abd..79bc3d3 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -553,6 +553,34 @@ impl<'b> TileEncoder<'b> {
 
         // mode info
         self.encode_mode_info(sb, frame, out_bits, part_tree);
+
+        let is_inter = part_tree.is_inter;
+        let mi = ModeInfo {
+            mi_size: part_tree.bsize,
+            tx_size: TxSize::TX_4X4, // TODO
+            tx_type: TxType::DCT_DCT, // TODO
+            is_inter: is_inter,
+            skip: part_tree.skip,
+            intra: !is_inter,
+            single: !is_inter || part_tree.ref_frame[1] <= INTRA_FRAME,
+            seg_id_predicted: 0,
+            skip_mode: 0,
+            ref_frame: if is_inter { part_tree.ref_frame } else { [INTRA_FRAME, NONE] },
+            interp_filter: [InterpFilter::EIGHTTAP; 2], // TODO
+            level_context: [0; 3], // TODO
+            dc_context: [0; 3], // TODO
+            palette_size: [0; 3], // TODO
+            comp_group_idx: 0, // TODO
+            compound_idx: 0, // TODO
+            segment_id: part_tree.segment_id,
+            y_mode: if is_inter { YMode::from_usize(self.y_mode).unwrap() } else { DC_PRED }, // TODO intra modes
+            mvs: if is_inter { part_tree.mvs } else { [MotionVector::new(0, 0); 2] },
+        };
+        for y in r..Min!(r+bh4, frame.mi_rows()) {
+            for x in c..Min!(c+bw4, frame.mi_cols()) {
+                frame.mis[y][x] = Some(mi);
+            }
+        }
     }
 
     pub fn encode_segment_id(&mut self, sb: &mut Superblock, frame: &mut Frame, out_bits: &mut Vec<u8>, part_tree: &mut PartitionTree) -> () {
-- 
2.43.0


From 03b9f9981a810d957f15ad537b911aab9764a1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:36 +0000
Subject: [PATCH 103/113] fix: forget the blocks of earlier tiles

Contexts look at any block the frame has recorded next to the one at hand.
---
 src/tile_encoder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 79bc3d3..01f52f1 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -123,7 +123,12 @@ impl<'b> TileEncoder<'b> {
 
             self.coder.init_encoder();
 
-            // clear above context
+            // blocks outside the tile are not available
+            for row in frame.mis.iter_mut() {
+                for mi in row.iter_mut() {
+                    *mi = None;
+                }
+            }
 
             for i in 0..FRAME_LF_COUNT {
                 ecx.delta_lf[i] = 0;
-- 
2.43.0


From 22faf9097542f6708996bbd7b651f4c4bc6abea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:37 +0000
Subject: [PATCH 104/113] fix: take the partition context from the neighbours'
 sizes

It was taken from their availability alone.
---
 src/tile_encoder.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 01f52f1..6e9c5b9 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -359,6 +359,14 @@ impl<'b> TileEncoder<'b> {
         let quarter_block4x4 = half_block4x4 >> 1;
         let has_rows = r+half_block4x4 < mi_rows;
         let has_cols = c+half_block4x4 < mi_cols;
+        let above = self.avail_u && match frame.get_above_mi(r, c) {
+            Some(mi) => num_4x4_blocks_wide[mi.mi_size as usize] < num4x4,
+            None => false,
+        };
+        let left = self.avail_l && match frame.get_left_mi(r, c) {
+            Some(mi) => num_4x4_blocks_high[mi.mi_size as usize] < num4x4,
+            None => false,
+        };
 
         let mut best_part_bits: Vec<u8> = vec![];
         let mut best_part_tree = part_tree.clone();
@@ -379,24 +387,24 @@ impl<'b> TileEncoder<'b> {
                     continue;
                 }
             } else if has_rows && has_cols {
-                self.coder.encode_partition(&mut part_bits, &mut self.cdf, part_tree.bsize, self.avail_u, self.avail_l, *partition);
+                self.coder.encode_partition(&mut part_bits, &mut self.cdf, part_tree.bsize, above, left, *partition);
             } else if has_cols {
                 match *partition {
                     PARTITION_SPLIT => {
-                        self.coder.encode_split_or_horz(&mut part_bits, &mut self.cdf, part_tree.bsize, self.avail_u, self.avail_l, 1);
+                        self.coder.encode_split_or_horz(&mut part_bits, &mut self.cdf, part_tree.bsize, above, left, 1);
                     },
                     PARTITION_HORZ => {
-                        self.coder.encode_split_or_horz(&mut part_bits, &mut self.cdf, part_tree.bsize, self.avail_u, self.avail_l, 0);
+                        self.coder.encode_split_or_horz(&mut part_bits, &mut self.cdf, part_tree.bsize, above, left, 0);
                     },
                     _ => { continue; }
                 }
             } else if has_rows {
                 match *partition {
                     PARTITION_SPLIT => {
-                        self.coder.encode_split_or_vert(&mut part_bits, &mut self.cdf, part_tree.bsize, self.avail_u, self.avail_l, 1);
+                        self.coder.encode_split_or_vert(&mut part_bits, &mut self.cdf, part_tree.bsize, above, left, 1);
                     },
                     PARTITION_VERT => {
-                        self.coder.encode_split_or_vert(&mut part_bits, &mut self.cdf, part_tree.bsize, self.avail_u, self.avail_l, 0);
+                        self.coder.encode_split_or_vert(&mut part_bits, &mut self.cdf, part_tree.bsize, above, left, 0);
                     },
                     _ => { continue; }
                 }
-- 
2.43.0


From 16baf8a37514e69363cef3816d573a39a29a308e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:41 +0000
Subject: [PATCH 105/113] fix: start every partition from the same state and
 keep that of the best

Each alternative continued where the one before had ended, and the running quantizer, loop
filter and cdef values were those of the last one tried.
---
 src/tile_encoder.rs | 66 ++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 60 insertions(+), 6 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 6e9c5b9..a8329d5 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -63,6 +63,59 @@ pub struct TileEncoder<'b> {
     pub close_matches: usize,
 }
 
+// what coding a square of 4x4 units changes
+struct BlockState {
+    coder: BoolCoder,
+    cdf: Box<CDF>,
+    current_q_index: usize,
+    delta_lf: [isize; FRAME_LF_COUNT],
+    read_deltas: bool,
+    mis: Vec<Vec<Option<ModeInfo>>>,
+    cdef_idx: Vec<Vec<isize>>,
+}
+
+impl BlockState {
+    fn save(te: &TileEncoder, frame: &Frame, r: usize, c: usize, num4x4: usize) -> BlockState {
+        let ecx = te.ectx.borrow();
+        BlockState {
+            coder: *te.coder,
+            cdf: Box::new(te.cdf),
+            current_q_index: ecx.current_q_index,
+            delta_lf: ecx.delta_lf,
+            read_deltas: ecx.read_deltas,
+            mis: frame.mis.iter().skip(r).take(num4x4).map(|row| row.iter().skip(c).take(num4x4).cloned().collect()).collect(),
+            cdef_idx: BlockState::cdef_units(r, num4x4).iter().map(|y| BlockState::cdef_units(c, num4x4).iter().map(|x| frame.cdef_idx[*y][*x]).collect()).collect(),
+        }
+    }
+
+    fn restore(&self, te: &mut TileEncoder, frame: &mut Frame, r: usize, c: usize) {
+        let mut ecx = te.ectx.borrow_mut();
+        *te.coder = self.coder;
+        te.cdf = *self.cdf;
+        ecx.current_q_index = self.current_q_index;
+        ecx.delta_lf = self.delta_lf;
+        ecx.read_deltas = self.read_deltas;
+        for (y, row) in self.mis.iter().enumerate() {
+            for (x, mi) in row.iter().enumerate() {
+                frame.mis[r+y][c+x] = *mi;
+            }
+        }
+        let cdef_size4 = num_4x4_blocks_wide[BLOCK_64X64 as usize];
+        let (r64, c64) = (r/cdef_size4*cdef_size4, c/cdef_size4*cdef_size4);
+        for (y, row) in self.cdef_idx.iter().enumerate() {
+            for (x, idx) in row.iter().enumerate() {
+                frame.cdef_idx[r64 + y*cdef_size4][c64 + x*cdef_size4] = *idx;
+            }
+        }
+    }
+
+    // starts of the 64x64 units from p on
+    fn cdef_units(p: usize, num4x4: usize) -> Vec<usize> {
+        let cdef_size4 = num_4x4_blocks_wide[BLOCK_64X64 as usize];
+        (0..(num4x4+cdef_size4-1)/cdef_size4).map(|i| (p/cdef_size4 + i) * cdef_size4).collect()
+    }
+}
+
 //impl<'a, 'b> TileEncoder<'a, 'b> where 'a: 'b {
 impl<'b> TileEncoder<'b> {
 //    pub fn new(ectx: &Rc<RefCell<EncoderContext>>, writer: &'b mut BinaryWriter<'a>, coder: &'b mut BoolCoder) -> TileEncoder<'a, 'b> { TileEncoder{
@@ -371,8 +424,8 @@ impl<'b> TileEncoder<'b> {
         let mut best_part_bits: Vec<u8> = vec![];
         let mut best_part_tree = part_tree.clone();
         let mut best_cost = <u64>::max_value();
-        let mut best_coder = self.coder.clone();
-        let mut best_cdf = self.cdf.clone();
+        let start = BlockState::save(self, frame, r, c, num4x4);
+        let mut best_state = None;
         for partition in [
             PARTITION_NONE, PARTITION_HORZ, PARTITION_VERT, PARTITION_SPLIT,
             PARTITION_HORZ_A, PARTITION_HORZ_B, PARTITION_VERT_A, PARTITION_VERT_B, PARTITION_HORZ_4, PARTITION_VERT_4
@@ -382,6 +435,7 @@ impl<'b> TileEncoder<'b> {
                partition_subsize[*partition as usize][part_tree.bsize as usize] == BLOCK_INVALID {
                 continue;
             }
+            start.restore(self, frame, r, c);
             if part_tree.bsize < BLOCK_8X8 {
                 if *partition != PARTITION_NONE {
                     continue;
@@ -524,12 +578,12 @@ impl<'b> TileEncoder<'b> {
                 best_cost = cost;
                 best_part_tree = part_tree.clone();
                 best_part_bits = part_bits;
-                best_coder = self.coder.clone();
-                best_cdf = self.cdf.clone();
+                best_state = Some(BlockState::save(self, frame, r, c, num4x4));
             }
         }
-        *self.coder = best_coder;
-        self.cdf = best_cdf;
+        if let Some(state) = best_state {
+            state.restore(self, frame, r, c);
+        }
         *part_tree = best_part_tree;
         self.coder.push_bits(out_bits, &best_part_bits);
     }
-- 
2.43.0


From 7cfd70dcb3fc615c9c45afae97197fbe34ac3937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:43 +0000
Subject: [PATCH 106/113] fix: write the tiles of a tile group

Writing a tile group panicked, and the coded tiles were dropped.
---
 src/obu_encoder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 5ea6ddf..6e3b368 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1482,15 +1482,18 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     ecx.tile_num = n;
                     let last_tile = ecx.tile_num == ecx.tg_end;
                     let mut tile_bits: Vec<u8> = vec![];
+                    drop(ecx); // the tile encoder borrows it
                     {
                         //let mut tile_encoder = TileEncoder::new(&self.ectx.clone(), self.writer, self.coder);
                         let mut tile_encoder = TileEncoder::new(&self.ectx.clone(), self.coder);
-                        tile_encoder.encode_tile(frame, ecx.tile_num, &mut tile_bits);
+                        tile_encoder.encode_tile(frame, n, &mut tile_bits);
                     }
+                    ecx = self.ectx.borrow_mut();
                     let tile_size_bytes = (tile_bits.len()+7) / 8;
                     if !last_tile {
                         self.coder.encode_le(out_bits, (tile_size_bytes-1) as u64, ecx.tile_size_bytes as u8);
                     }
+                    self.coder.push_bits(out_bits, &tile_bits);
                 }
 
                 if ecx.tg_end == frame.num_tiles()-1 {
-- 
2.43.0


From bcc571f58e0f83f0d960f4c323b1d770137d34b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:02 +0000
Subject: [PATCH 107/113] fix: need restoration units only where planes are
 restored

Coding a tile of a frame without superblock data panicked even with restoration off.
---
 src/tile_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index a8329d5..ab4e523 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -242,9 +242,9 @@ impl<'b> TileEncoder<'b> {
         let mut ecx = self.ectx.borrow_mut();
         let sb_size = if ecx.use_128x128_superblock { BLOCK_128X128 } else { BLOCK_64X64 };
         let sb_size4 = num_4x4_blocks_wide[sb_size as usize];
-        let sb = &mut frame.superblocks[r/sb_size4][c/sb_size4];
         for plane in 0..ecx.num_planes {
             if ecx.frame_restoration_type[plane] != RESTORE_NONE {
+                let sb = &mut frame.superblocks[r/sb_size4][c/sb_size4];
                 let subx = if plane==0 { 0 } else { frame.subsampling_x as usize };
                 let suby = if plane==0 { 0 } else { frame.subsampling_y as usize };
                 let unit_size = ecx.loop_restoration_size[plane];
-- 
2.43.0


From 8c7053bba3f1e4658498f92e711d92761fea91cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:04 +0000
Subject: [PATCH 108/113] fix: keep the running quantizer index for blocks that
 have none

New blocks have index 0, and a delta down to 0 decodes as 1.
---
 src/tile_encoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index ab4e523..b47f1ee 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -759,6 +759,9 @@ impl<'b> TileEncoder<'b> {
             if !(part_tree.bsize==sb_size && part_tree.skip) && read_deltas {
                 let mut current_q_index = &mut self.ectx.borrow_mut().current_q_index;
                 let delta_q_res = frame.delta_q_params.delta_q_res;
+                if part_tree.q_index == 0 { // not chosen; a delta cannot lead to 0
+                    part_tree.q_index = *current_q_index;
+                }
                 let delta_q_index = (part_tree.q_index as isize - *current_q_index as isize) >> delta_q_res;
                 let delta_q_abs = Abs!(delta_q_index) as usize;
                 if delta_q_index != 0 {
-- 
2.43.0


From 050cb7f6457621a6086aa3b89e31d6ef0628269f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:06 +0000
Subject: [PATCH 109/113] fix: place the last block of mixed partitions in its
 quarter

---
 src/tile_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index b47f1ee..71967bc 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -521,7 +521,7 @@ impl<'b> TileEncoder<'b> {
                     ];
                     self.encode_block(sb, r, c, frame, &mut part_bits, &mut part_tree.partitions[0]);
                     self.encode_block(sb, r+half_block4x4, c, frame, &mut part_bits, &mut part_tree.partitions[1]);
-                    self.encode_block(sb, r, c+half_block4x4, frame, &mut part_bits, &mut part_tree.partitions[2]);
+                    self.encode_block(sb, r+half_block4x4, c+half_block4x4, frame, &mut part_bits, &mut part_tree.partitions[2]);
                 },
                 PARTITION_VERT_A => {
                     part_tree.partitions = vec![
@@ -541,7 +541,7 @@ impl<'b> TileEncoder<'b> {
                     ];
                     self.encode_block(sb, r, c, frame, &mut part_bits, &mut part_tree.partitions[0]);
                     self.encode_block(sb, r, c+half_block4x4, frame, &mut part_bits, &mut part_tree.partitions[1]);
-                    self.encode_block(sb, r+half_block4x4, c, frame, &mut part_bits, &mut part_tree.partitions[2]);
+                    self.encode_block(sb, r+half_block4x4, c+half_block4x4, frame, &mut part_bits, &mut part_tree.partitions[2]);
                 },
                 PARTITION_HORZ_4 => {
                     part_tree.partitions = vec![
-- 
2.43.0


From e4fdf126642e52689cec3de600083aa56a353e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:32 +0000
Subject: [PATCH 110/113] fix: place the default vector of copied blocks left
 of or above them

MotionVector::new takes the horizontal component first, and rows of the
first superblock underflowed.
---
 src/tile_encoder.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 71967bc..b8929c0 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -1486,15 +1486,15 @@ impl<'b> TileEncoder<'b> {
                 if self.pred_mv[0]==MotionVector::new(0, 0) {
                     let sb_size = if self.ectx.borrow_mut().use_128x128_superblock { BLOCK_128X128 } else { BLOCK_64X64 };
                     let sb_size4 = num_4x4_blocks_high[sb_size as usize];
-                    if self.mi_row-sb_size4 < self.mi_row_start {
+                    if self.mi_row < self.mi_row_start+sb_size4 {
                         self.pred_mv[0] = MotionVector::new(
-                            0,
-                            -((sb_size4 * MI_SIZE + INTRABC_DELAY_PIXELS) as isize) * 8
+                            -((sb_size4 * MI_SIZE + INTRABC_DELAY_PIXELS) as isize) * 8,
+                            0
                         );
                     } else {
                         self.pred_mv[0] = MotionVector::new(
-                            -((sb_size4 * MI_SIZE * 8) as isize),
-                            0
+                            0,
+                            -((sb_size4 * MI_SIZE * 8) as isize)
                         );
                     }
                 }
-- 
2.43.0


From 40ce67ee0050e22146fe9732f64a8ad56d5cc9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:08 +0000
Subject: [PATCH 111/113] fix: report arguments that are not valid Unicode
 instead of panicking

---
 src/main.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 0322c1c..a6c6a77 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -51,7 +51,13 @@ fn main() {
 
     let mut config: Config = Config::default();
 
-    let args = std::env::args().skip(1).collect::<Vec<String>>();
+    let args = match std::env::args_os().skip(1).map(|arg| arg.into_string()).collect::<Result<Vec<String>, _>>() {
+        Ok(v) => v,
+        Err(e) => {
+            println!("{}: failed to parse command-line arguments: {:?} is not valid Unicode", "error".red(), e);
+            process::exit(1);
+        }
+    };
     if args.len() == 0 { return; }
 
     CommandOption::init_config(&mut config);
-- 
2.43.0


From d6f733a4db3f0926d29936d055eacf436d0b20fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:06 +0000
Subject: [PATCH 112/113] fix: parse long argument lists without keeping every
 remainder in memory

Every option parsed kept two copies of the remaining arguments until the end,
so a list of some ten thousand arguments exhausted memory.
---
 src/option.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/option.rs b/src/option.rs
index c30ae16..d2f4ba3 100644
--- a/src/option.rs
+++ b/src/option.rs
@@ -224,19 +224,21 @@ impl CommandOption {
     }
 
     pub fn parse(args: Vec<String>, config: &mut Config) -> Result<Vec<String>, String> {
-        if args.len() == 0 { Ok(vec![]) }
-        else {
+        let mut args = args;
+        while args.len() > 0 {
+            let rest = args.split_off(1);
             let arg = &args[0];
-            if arg.starts_with("-") {
+            args = if arg.starts_with("-") {
                 match {
-                    if arg.starts_with("--") { CommandOption::set_option_by_name(&arg[2..], args[1..].to_vec(), config) }
-                    else { CommandOption::set_option_by_short_name(&arg[1..], args[1..].to_vec(), config) }
+                    if arg.starts_with("--") { CommandOption::set_option_by_name(&arg[2..], rest, config) }
+                    else { CommandOption::set_option_by_short_name(&arg[1..], rest, config) }
                 } {
-                    Ok(v) => CommandOption::parse(v, config),
-                    Err(e) => Err(e)
+                    Ok(v) => v,
+                    Err(e) => return Err(e)
                 }
             }
-            else{ return Err("option name must start with '-'.".to_string()) }
+            else{ return Err("option name must start with '-'.".to_string()) };
         }
+        Ok(args)
     }
 }
\ No newline at end of file
-- 
2.43.0


From df4a5313ab10cd4a705f566eabfb11c8cf00caf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:54 +0000
Subject: [PATCH 113/113] fix: disable_cdf_update was ignored by the tile
 coder, which kept adapting its tables

---
 src/bool_coder.rs   | 4 ++++
 src/tile_encoder.rs | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 5c8f9e9..6631357 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -25,6 +25,7 @@ pub struct BoolCoder{
     bool_first: bool,
     bit_count: u64,
     leb_128_bytes: u64,
+    pub disable_cdf_update: bool,
 //    CDF tile_cdf;
 //    std::array<CDF, 8> cdfs;
 }
@@ -41,6 +42,7 @@ impl BoolCoder {
             bool_first: true,
             bit_count: 0,
             leb_128_bytes: 0,
+            disable_cdf_update: false,
         }
     }
 
@@ -192,6 +194,8 @@ impl BoolCoder {
             self.bool_range <<= 1;
         }
 
+        if self.disable_cdf_update { return; }
+
         // update cdf
         let rate: i32 = 4 + ((cdf[N as usize]>31) as i32) + msb16(N as u16) as i32;
         let rate2: i32 = 5;
diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index b8929c0..4b7cd7d 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -175,6 +175,7 @@ impl<'b> TileEncoder<'b> {
             ecx.current_q_index = frame.quantization_params.base_q_idx as usize;
 
             self.coder.init_encoder();
+            self.coder.disable_cdf_update = ecx.disable_cdf_update;
 
             // blocks outside the tile are not available
             for row in frame.mis.iter_mut() {
-- 
2.43.0

