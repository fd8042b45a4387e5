From dab59389a5a2cfd0e8191836aa1d58911f142a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:53 +0000
Subject: [PATCH 1/4] fix: report Shrink as the highest ptr sub-variant in
 OpcodeProps::max_variant_idx

---
 src/definitions/ptr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/definitions/ptr.rs b/src/definitions/ptr.rs
index 609ba64..7fb899d 100644
--- a/src/definitions/ptr.rs
+++ b/src/definitions/ptr.rs
@@ -65,7 +65,7 @@ impl OpcodeProps for PtrOpcode {
         }
     }
     fn max_variant_idx(&self, _version: ISAVersion) -> usize {
-        PtrOpcode::Pack.variant_index()
+        PtrOpcode::Shrink.variant_index()
     }
     fn input_operands(&self, _version: ISAVersion) -> Vec<Operand> {
         vec![
-- 
2.43.0


From 874be30f0a35a6f4f18d078f42f2b185e999652b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:53 +0000
Subject: [PATCH 2/4] fix: variants stay available in ISA versions newer than
 the one that added them

---
 src/definitions/opcode_trait.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/definitions/opcode_trait.rs b/src/definitions/opcode_trait.rs
index a71ee48..b7c5e2f 100644
--- a/src/definitions/opcode_trait.rs
+++ b/src/definitions/opcode_trait.rs
@@ -90,7 +90,7 @@ pub trait OpcodeVariantProps: Sized + 'static + Send + Sync {
     fn minimal_version(&self) -> ISAVersion;
     fn max_variant_idx_for_version(version: ISAVersion) -> usize;
     fn is_available_for_version(&self, version: ISAVersion) -> bool {
-        self.minimal_version() >= version
+        self.minimal_version() <= version
     }
     fn is_added_in_version(&self, version: ISAVersion) -> bool {
         self.minimal_version() == version
-- 
2.43.0


From 724e4b0876fa34be77b1d24b668c8604d0ae2e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:53 +0000
Subject: [PATCH 3/4] fix: 16-byte encodings with stray bits above imm1 are not
 canonical

---
 src/decoding/encoding_mode_testing.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/decoding/encoding_mode_testing.rs b/src/decoding/encoding_mode_testing.rs
index 4018320..cd40d92 100644
--- a/src/decoding/encoding_mode_testing.rs
+++ b/src/decoding/encoding_mode_testing.rs
@@ -24,7 +24,10 @@ impl EncodingModeTesting {
     const UNUSED_GAP_RAW_MASK: u128 = (1u128
         << (Self::VARIANT_AND_CONDITION_BITS - OPCODES_TABLE_WIDTH - CONDITIONAL_BITS_WIDTH))
         - 1;
-    const UNUSED_BITS_MASK: u128 = Self::UNUSED_GAP_RAW_MASK << OPCODES_TABLE_WIDTH;
+    // bits above the second immediate carry no information either
+    const UNUSED_TOP_BITS_MASK: u128 = u128::MAX << (Self::IMM1_SHIFT + u32::BITS);
+    const UNUSED_BITS_MASK: u128 =
+        (Self::UNUSED_GAP_RAW_MASK << OPCODES_TABLE_WIDTH) | Self::UNUSED_TOP_BITS_MASK;
 
     pub fn variant_and_condition_from_u128_word(
         raw_value: u128,
-- 
2.43.0


From 2dbd182a5b8c306163375da68785fb84107a253d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:34 +0000
Subject: [PATCH 4/4] fix: replace the circuit price file atomically

---
 src/circuit_pricing_generator/main.rs | 31 ++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/circuit_pricing_generator/main.rs b/src/circuit_pricing_generator/main.rs
index ac42e12..3521fe5 100644
--- a/src/circuit_pricing_generator/main.rs
+++ b/src/circuit_pricing_generator/main.rs
@@ -1,5 +1,5 @@
-use std::fs::File;
-use std::io::Write;
+use std::fs::{self, File, OpenOptions};
+use std::io::{self, Write};
 
 use zkevm_opcode_defs::system_params::{
     ERGS_PER_CIRCUIT, INITIAL_STORAGE_WRITE_PUBDATA_BYTES, MAX_PUBDATA_PER_BLOCK,
@@ -40,6 +40,19 @@ fn comment(comment: &str) -> String {
     format!("\n// {}\n", comment)
 }
 
+/// Creates a new file next to `filepath`, never touching an existing one.
+fn create_temporary(filepath: &str) -> io::Result<(String, File)> {
+    let mut attempt = 0;
+    loop {
+        let path = format!("{}.{}.{}.tmp", filepath, std::process::id(), attempt);
+        match OpenOptions::new().write(true).create_new(true).open(&path) {
+            Ok(file) => return Ok((path, file)),
+            Err(e) if e.kind() == io::ErrorKind::AlreadyExists => attempt += 1,
+            Err(e) => return Err(e),
+        }
+    }
+}
+
 fn save_circiut_prices(prices: String, filepath: &str) {
     let file_content = vec![
         "// This file is auto-generated, do not edit it manually\n".to_owned(),
@@ -47,9 +60,17 @@ fn save_circiut_prices(prices: String, filepath: &str) {
         prices,
     ]
     .concat();
-    let mut f = File::create(filepath).expect("Unable to create file");
-    f.write_all(file_content.as_bytes())
-        .expect("Unable to write data");
+    // The file is compiled into this crate (and into this generator): replace it as a whole, so
+    // that an interrupted run can not leave a truncated one behind.
+    let (temporary, mut f) = create_temporary(filepath).expect("Unable to create file");
+    let result = f
+        .write_all(file_content.as_bytes())
+        .and_then(|_| f.sync_all())
+        .and_then(|_| fs::rename(&temporary, filepath));
+    if result.is_err() {
+        let _ = fs::remove_file(&temporary);
+    }
+    result.expect("Unable to write data");
 }
 
 fn main() {
-- 
2.43.0

