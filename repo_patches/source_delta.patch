From 23975bd8d2ad2a12e44ac64b14ff4b075296ec33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:21 +0000
Subject: [PATCH 1/9] fix: constrain the initial values of permutation products
 and running sums

The first cell of every running product and running sum was an
unconstrained advice cell, so a prover could pick it to make any two
tables agree. Running sums now start at one, so that leading zeros are
bound as well.
---
 ckb_bf_base/src/input_table.rs       | 3 ++-
 ckb_bf_base/src/instruction_table.rs | 4 +++-
 ckb_bf_base/src/main_config.rs       | 3 +++
 ckb_bf_base/src/memory_table.rs      | 1 +
 ckb_bf_base/src/output_table.rs      | 3 ++-
 ckb_bf_base/src/processor_table.rs   | 8 ++++++--
 ckb_bf_base/src/program_table.rs     | 4 +++-
 ckb_bf_base/src/utils.rs             | 3 +++
 8 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/ckb_bf_base/src/input_table.rs b/ckb_bf_base/src/input_table.rs
index a79371c..7954148 100644
--- a/ckb_bf_base/src/input_table.rs
+++ b/ckb_bf_base/src/input_table.rs
@@ -65,7 +65,8 @@ impl InputTable for InputTableConfig {
             || "Load input table",
             |mut region| {
                 // init rs_0
-                let mut rs_prev = region.assign_advice(|| "rs", self.rs, 0, || Value::known(Fr::zero()))?;
+                let mut rs_prev = region.assign_advice(|| "rs", self.rs, 0, || Value::known(challenge.rs_init))?;
+                region.constrain_constant(rs_prev.cell(), challenge.rs_init)?;
                 let len = region.assign_advice(
                     || "Input length",
                     self.input_len,
diff --git a/ckb_bf_base/src/instruction_table.rs b/ckb_bf_base/src/instruction_table.rs
index d245cd9..691754c 100644
--- a/ckb_bf_base/src/instruction_table.rs
+++ b/ckb_bf_base/src/instruction_table.rs
@@ -149,7 +149,9 @@ impl InstructionTable for InstructionTableConfig {
             |mut region| {
                 let mut prp_prev =
                     region.assign_advice(|| "prp", self.prp, 0, || Value::known(challenges.inst_prp_init))?;
-                let mut rs_prev = region.assign_advice(|| "rs", self.rs, 0, || Value::known(Fr::zero()))?;
+                region.constrain_constant(prp_prev.cell(), challenges.inst_prp_init)?;
+                let mut rs_prev = region.assign_advice(|| "rs", self.rs, 0, || Value::known(challenges.rs_init))?;
+                region.constrain_constant(rs_prev.cell(), challenges.rs_init)?;
                 let instruction_matrix = &matrix.instruction_matrix;
                 self.s_prp_adhoc.enable(&mut region, instruction_matrix.len())?;
                 for (idx, row) in instruction_matrix.iter().enumerate() {
diff --git a/ckb_bf_base/src/main_config.rs b/ckb_bf_base/src/main_config.rs
index 8358f41..dce9f83 100644
--- a/ckb_bf_base/src/main_config.rs
+++ b/ckb_bf_base/src/main_config.rs
@@ -39,6 +39,9 @@ impl<const RANGE: usize> MainTable for MainConfig<RANGE> {
         cs.enable_equality(code);
         let input = cs.instance_column();
         cs.enable_equality(input);
+        // Holds the constants that initial values and lengths are constrained to
+        let constants = cs.fixed_column();
+        cs.enable_constant(constants);
         // First phase gates and tables
         let p_config = ProcessorTableConfig::configure(cs);
         let m_config = MemoryTableConfig::configure(cs);
diff --git a/ckb_bf_base/src/memory_table.rs b/ckb_bf_base/src/memory_table.rs
index 0a29020..ed23c63 100644
--- a/ckb_bf_base/src/memory_table.rs
+++ b/ckb_bf_base/src/memory_table.rs
@@ -108,6 +108,7 @@ impl MemoryTable for MemoryTableConfig {
                 // init prp
                 let mut prp_prev =
                     region.assign_advice(|| "prp", self.prp, 0, || Value::known(challenges.mem_prp_init))?;
+                region.constrain_constant(prp_prev.cell(), challenges.mem_prp_init)?;
                 let memory_matrix = &matrix.memory_matrix;
                 for (idx, row) in memory_matrix.iter().enumerate() {
                     if idx < memory_matrix.len() - 1 {
diff --git a/ckb_bf_base/src/output_table.rs b/ckb_bf_base/src/output_table.rs
index db47791..17fcf1f 100644
--- a/ckb_bf_base/src/output_table.rs
+++ b/ckb_bf_base/src/output_table.rs
@@ -55,7 +55,8 @@ impl OutputTable for OutputTableConfig {
             || "Load output table",
             |mut region| {
                 // init rs_0
-                let mut rs_prev = region.assign_advice(|| "rs", self.rs, 0, || Value::known(Fr::zero()))?;
+                let mut rs_prev = region.assign_advice(|| "rs", self.rs, 0, || Value::known(challenge.rs_init))?;
+                region.constrain_constant(rs_prev.cell(), challenge.rs_init)?;
                 let output_matrix = &matrix.output_matrix;
                 for (idx, v) in output_matrix.iter().enumerate() {
                     self.s_rs.enable(&mut region, idx)?;
diff --git a/ckb_bf_base/src/processor_table.rs b/ckb_bf_base/src/processor_table.rs
index 1ea21e6..3c25eee 100644
--- a/ckb_bf_base/src/processor_table.rs
+++ b/ckb_bf_base/src/processor_table.rs
@@ -328,9 +328,13 @@ impl<const RANGE: usize> ProcessorTable for ProcessorTableConfig<RANGE> {
                     || Value::known(challenges.inst_prp_init),
                 )?;
                 let mut output_rs_prev =
-                    region.assign_advice(|| "output rs", self.output_rs, 0, || Value::known(Fr::zero()))?;
+                    region.assign_advice(|| "output rs", self.output_rs, 0, || Value::known(challenges.rs_init))?;
                 let mut input_rs_prev =
-                    region.assign_advice(|| "input rs", self.input_rs, 0, || Value::known(Fr::zero()))?;
+                    region.assign_advice(|| "input rs", self.input_rs, 0, || Value::known(challenges.rs_init))?;
+                region.constrain_constant(mem_prp_prev.cell(), challenges.mem_prp_init)?;
+                region.constrain_constant(inst_prp_prev.cell(), challenges.inst_prp_init)?;
+                region.constrain_constant(output_rs_prev.cell(), challenges.rs_init)?;
+                region.constrain_constant(input_rs_prev.cell(), challenges.rs_init)?;
                 let processor_matrix = &matrix.processor_matrix;
                 // B condition is enabled only for the first row
                 self.s_b.enable(&mut region, 0)?;
diff --git a/ckb_bf_base/src/program_table.rs b/ckb_bf_base/src/program_table.rs
index 8a9ec0b..4fc53c6 100644
--- a/ckb_bf_base/src/program_table.rs
+++ b/ckb_bf_base/src/program_table.rs
@@ -76,7 +76,9 @@ impl ProgramTable for ProgramTableConfig {
                     || Value::known(Fr::from(matrix.program.len() as u64)),
                 )?;
 
-                let mut rs_prev = region.assign_advice(|| "rs", self.code_rs, 0, || Value::known(Fr::zero()))?;
+                let mut rs_prev =
+                    region.assign_advice(|| "rs", self.code_rs, 0, || Value::known(challenges.rs_init))?;
+                region.constrain_constant(rs_prev.cell(), challenges.rs_init)?;
                 for idx in 0..matrix.program.len() {
                     self.s_rs.enable(&mut region, idx)?;
                     let code =
diff --git a/ckb_bf_base/src/utils.rs b/ckb_bf_base/src/utils.rs
index 674d5b8..120a0e0 100644
--- a/ckb_bf_base/src/utils.rs
+++ b/ckb_bf_base/src/utils.rs
@@ -40,6 +40,8 @@ pub type BFCell = AssignedCell<Fr, Fr>;
 pub struct BFChallenge {
     pub(crate) mem_prp_init: Fr,
     pub(crate) inst_prp_init: Fr,
+    // Non-zero, so that a running sum also binds the number of summed values
+    pub(crate) rs_init: Fr,
     challenges: [Challenge; 11],
 }
 
@@ -49,6 +51,7 @@ impl BFChallenge {
             // TODO: make it random
             mem_prp_init: Fr::from(3),
             inst_prp_init: Fr::from(9),
+            rs_init: Fr::one(),
             challenges: [(); 11].map(|_| cs.challenge_usable_after(FirstPhase)),
         }
     }
-- 
2.43.0


From 33649efe0104f9f84f0f34f5302aaba04dd8dd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:29 +0000
Subject: [PATCH 2/9] fix: bind every instruction table row to the public
 program

The first instruction pointer, the next instruction (the jump target)
and the dummy row past the end were not tied to the program.
---
 ckb_bf_base/src/instruction_table.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/ckb_bf_base/src/instruction_table.rs b/ckb_bf_base/src/instruction_table.rs
index 691754c..ad42714 100644
--- a/ckb_bf_base/src/instruction_table.rs
+++ b/ckb_bf_base/src/instruction_table.rs
@@ -28,6 +28,7 @@ pub struct InstructionTableConfig {
     s_prp_adhoc: Selector,
     s_rs: Selector,
     s_i: Selector, // Selector for condition I category (Instruction Table)
+    s_b: Selector, // Selector for the first row
 }
 
 impl InstructionTable for InstructionTableConfig {
@@ -45,6 +46,20 @@ impl InstructionTable for InstructionTableConfig {
         let s_rs = cs.selector();
         let s_prp_adhoc = cs.selector();
         let s_i = cs.selector();
+        let s_b = cs.selector();
+
+        cs.create_gate("B0: ip_0 = 0", |vc| {
+            let ip = vc.query_advice(ip, Rotation::cur());
+            let s_b = vc.query_selector(s_b);
+            vec![s_b * ip]
+        });
+
+        cs.create_gate("The dummy row has ci = ni = 0", |vc| {
+            let ci_prev = vc.query_advice(ci, Rotation::prev());
+            let ni_prev = vc.query_advice(ni, Rotation::prev());
+            let s_prp_adhoc = vc.query_selector(s_prp_adhoc);
+            vec![s_prp_adhoc.clone() * ci_prev, s_prp_adhoc * ni_prev]
+        });
 
         cs.create_gate("I0: Instruction pointer increases by 0 or 1", |vc| {
             let cur_ip = vc.query_advice(ip, Rotation::cur());
@@ -70,6 +85,15 @@ impl InstructionTable for InstructionTableConfig {
             let s_i = vc.query_selector(s_i);
             vec![s_i * (next_ip.clone() - cur_ip.clone() - one.clone()) * (next_ni.clone() - cur_ni.clone())]
         });
+
+        cs.create_gate("I3: If ip increases, then ni is the ci of the next row.", |vc| {
+            let cur_ip = vc.query_advice(ip, Rotation::cur());
+            let next_ip = vc.query_advice(ip, Rotation::next());
+            let cur_ni = vc.query_advice(ni, Rotation::cur());
+            let next_ci = vc.query_advice(ci, Rotation::next());
+            let s_i = vc.query_selector(s_i);
+            vec![s_i * (next_ip - cur_ip) * (cur_ni - next_ci)]
+        });
         Self {
             ip,
             ci,
@@ -77,6 +101,7 @@ impl InstructionTable for InstructionTableConfig {
             prp,
             rs,
             s_i,
+            s_b,
             s_prp,
             s_prp_adhoc,
             s_rs,
@@ -154,6 +179,7 @@ impl InstructionTable for InstructionTableConfig {
                 region.constrain_constant(rs_prev.cell(), challenges.rs_init)?;
                 let instruction_matrix = &matrix.instruction_matrix;
                 self.s_prp_adhoc.enable(&mut region, instruction_matrix.len())?;
+                self.s_b.enable(&mut region, 0)?;
                 for (idx, row) in instruction_matrix.iter().enumerate() {
                     if idx < instruction_matrix.len() - 1 {
                         // I condition is enabled except last row
-- 
2.43.0


From d39857781ef2e0ca0cabf6c924b14a45df41fe13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:34 +0000
Subject: [PATCH 3/9] fix: tie the public program and input lengths to the
 entries checked

The length cells were only copied to the instance, so any claimed length
was accepted.
---
 ckb_bf_base/src/input_table.rs   | 2 ++
 ckb_bf_base/src/program_table.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/ckb_bf_base/src/input_table.rs b/ckb_bf_base/src/input_table.rs
index 7954148..b398958 100644
--- a/ckb_bf_base/src/input_table.rs
+++ b/ckb_bf_base/src/input_table.rs
@@ -73,6 +73,8 @@ impl InputTable for InputTableConfig {
                     0,
                     || Value::known(Fr::from(matrix.input_matrix.len() as u64)),
                 )?;
+                // the public length is the number of values copied below
+                region.constrain_constant(len.cell(), Fr::from(matrix.input_matrix.len() as u64))?;
                 for idx in 0..matrix.input_matrix.len() {
                     self.s_rs.enable(&mut region, idx)?;
                     // copy from instance
diff --git a/ckb_bf_base/src/program_table.rs b/ckb_bf_base/src/program_table.rs
index 4fc53c6..e54dd11 100644
--- a/ckb_bf_base/src/program_table.rs
+++ b/ckb_bf_base/src/program_table.rs
@@ -75,6 +75,8 @@ impl ProgramTable for ProgramTableConfig {
                     0,
                     || Value::known(Fr::from(matrix.program.len() as u64)),
                 )?;
+                // the public length is the number of entries copied below
+                region.constrain_constant(len.cell(), Fr::from(matrix.program.len() as u64))?;
 
                 let mut rs_prev =
                     region.assign_advice(|| "rs", self.code_rs, 0, || Value::known(challenges.rs_init))?;
-- 
2.43.0


From 2bf6c760952686901c719ac2763cc0325908e2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:07 +0000
Subject: [PATCH 4/9] fix: constrain the running sum cells of the last row

The cells compared between the tables were one row past the last
running sum transition that is checked, hence free: neither the input,
the output nor the program was bound to the execution.
---
 ckb_bf_base/src/instruction_table.rs |  7 ++++++-
 ckb_bf_base/src/processor_table.rs   | 11 +++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/ckb_bf_base/src/instruction_table.rs b/ckb_bf_base/src/instruction_table.rs
index ad42714..b708e66 100644
--- a/ckb_bf_base/src/instruction_table.rs
+++ b/ckb_bf_base/src/instruction_table.rs
@@ -209,7 +209,12 @@ impl InstructionTable for InstructionTableConfig {
                     } else {
                         rs_prev.value().map(|x| *x)
                     };
-                    rs_prev = region.assign_advice(|| "code rs", self.rs, idx + 1, || rs)?;
+                    let rs = region.assign_advice(|| "code rs", self.rs, idx + 1, || rs)?;
+                    if next_row.is_none() {
+                        // s_rs does not cover the dummy row, which leaves the running sum unchanged
+                        region.constrain_equal(rs.cell(), rs_prev.cell())?;
+                    }
+                    rs_prev = rs;
                 }
                 Ok((rs_prev, prp_prev))
             },
diff --git a/ckb_bf_base/src/processor_table.rs b/ckb_bf_base/src/processor_table.rs
index 3c25eee..1c72a6a 100644
--- a/ckb_bf_base/src/processor_table.rs
+++ b/ckb_bf_base/src/processor_table.rs
@@ -376,8 +376,15 @@ impl<const RANGE: usize> ProcessorTable for ProcessorTableConfig<RANGE> {
                     };
                     mem_prp_prev = region.assign_advice(|| "mem_prp", self.mem_prp, idx + 1, || mem_prp)?;
                     inst_prp_prev = region.assign_advice(|| "inst prp", self.inst_prp, idx + 1, || inst_prp)?;
-                    output_rs_prev = region.assign_advice(|| "output rs", self.output_rs, idx + 1, || output_rs)?;
-                    input_rs_prev = region.assign_advice(|| "input rs", self.input_rs, idx + 1, || input_rs)?;
+                    let output_rs = region.assign_advice(|| "output rs", self.output_rs, idx + 1, || output_rs)?;
+                    let input_rs = region.assign_advice(|| "input rs", self.input_rs, idx + 1, || input_rs)?;
+                    if idx == processor_matrix.len() - 1 {
+                        // s_rs does not cover the final row, which leaves the running sums unchanged
+                        region.constrain_equal(output_rs.cell(), output_rs_prev.cell())?;
+                        region.constrain_equal(input_rs.cell(), input_rs_prev.cell())?;
+                    }
+                    output_rs_prev = output_rs;
+                    input_rs_prev = input_rs;
                 }
                 Ok((mem_prp_prev, output_rs_prev, input_rs_prev, inst_prp_prev))
             },
-- 
2.43.0


From ad0e749447f7cd9b676ddceeccb8c0cd0c301ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:49 +0000
Subject: [PATCH 5/9] fix: Fq6::is_zero takes the third coefficient into
 account

---
 halo2curves/src/bn256/fq6.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/halo2curves/src/bn256/fq6.rs b/halo2curves/src/bn256/fq6.rs
index cbf8cb1..4679d6e 100644
--- a/halo2curves/src/bn256/fq6.rs
+++ b/halo2curves/src/bn256/fq6.rs
@@ -401,7 +401,7 @@ impl Field for Fq6 {
     }
 
     fn is_zero(&self) -> Choice {
-        self.c0.is_zero() & self.c1.is_zero()
+        self.c0.is_zero() & self.c1.is_zero() & self.c2.is_zero()
     }
 
     fn square(&self) -> Self {
-- 
2.43.0


From 5b46c46bc8604fce795e7b325284ae62dada4e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:48 +0000
Subject: [PATCH 6/9] fix: read selector assignments of a verifying key in the
 format they were written in

VerifyingKey::write encodes the constants of the selector expressions in the
requested format, but read always decoded them as RawBytes, so a key written
and read as Processed came back with other constraints (and another transcript
representation) whenever two selectors share a column.
---
 halo2_proofs/src/plonk.rs                            | 4 +++-
 halo2_proofs/src/plonk/circuit/compress_selectors.rs | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/halo2_proofs/src/plonk.rs b/halo2_proofs/src/plonk.rs
index 764f06b..5eee0c1 100644
--- a/halo2_proofs/src/plonk.rs
+++ b/halo2_proofs/src/plonk.rs
@@ -119,7 +119,9 @@ where
         let mut length = [0u8; 4];
         reader.read_exact(&mut length)?;
         let length = u32::from_be_bytes(length) as usize;
-        let selector_assignments = (0..length).map(|_| SelectorAssignment::read(reader).unwrap()).collect::<Vec<_>>();
+        let selector_assignments = (0..length)
+            .map(|_| SelectorAssignment::read(reader, format))
+            .collect::<io::Result<Vec<_>>>()?;
         let cs = cs.ckb_recreate_side_effect(selector_assignments.clone());
 
         Ok(Self::from_parts(
diff --git a/halo2_proofs/src/plonk/circuit/compress_selectors.rs b/halo2_proofs/src/plonk/circuit/compress_selectors.rs
index d50b391..95f5f0f 100644
--- a/halo2_proofs/src/plonk/circuit/compress_selectors.rs
+++ b/halo2_proofs/src/plonk/circuit/compress_selectors.rs
@@ -42,14 +42,14 @@ impl<F: SerdePrimeField> SelectorAssignment<F> {
         Ok(())
     }
 
-    pub fn read<R: io::Read>(reader: &mut R) -> io::Result<Self> {
+    pub fn read<R: io::Read>(reader: &mut R, format: SerdeFormat) -> io::Result<Self> {
         let mut selector = [0u8; 4];
         reader.read_exact(&mut selector)?;
         let selector = u32::from_be_bytes(selector) as usize;
         let mut combination_index = [0u8; 4];
         reader.read_exact(&mut combination_index)?;
         let combination_index = u32::from_be_bytes(combination_index) as usize;
-        let expression = Expression::read(reader, SerdeFormat::RawBytes).unwrap();
+        let expression = Expression::read(reader, format)?;
         Ok(Self {
             selector,
             combination_index,
-- 
2.43.0


From 05bd0539ce07dd54a1f1756e52abf6ec4152cfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:48 +0000
Subject: [PATCH 7/9] fix: VerifyingKey::to_bytes and ProvingKey::to_bytes no
 longer panic

bytes_length, which only sizes the buffer, was a panic.
---
 halo2_proofs/src/plonk.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/halo2_proofs/src/plonk.rs b/halo2_proofs/src/plonk.rs
index 5eee0c1..e95ddbc 100644
--- a/halo2_proofs/src/plonk.rs
+++ b/halo2_proofs/src/plonk.rs
@@ -151,9 +151,7 @@ where
 
 impl<C: CurveAffine> VerifyingKey<C> {
     fn bytes_length(&self) -> usize {
-        // Xiaowen: TODO bytes_length cannot work due to CurveAffine doesn't have a serialization
-        // trait and hence size of selector_assignments cannot be calcualted.
-        panic!("Should not be called");
+        // Used as a capacity only: the selector assignments are not counted.
         8 + (self.fixed_commitments.len() * C::default().to_bytes().as_ref().len())
             + self.permutation.bytes_length()
     }
-- 
2.43.0


From 1fdff9ecff9cbc2561525420f7a4f6251db31331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:36 +0000
Subject: [PATCH 8/9] fix: read_raw checks that the point is on the curve

---
 halo2curves/src/derive/curve.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/halo2curves/src/derive/curve.rs b/halo2curves/src/derive/curve.rs
index d8d6c98..3d6d9e6 100644
--- a/halo2curves/src/derive/curve.rs
+++ b/halo2curves/src/derive/curve.rs
@@ -512,7 +512,13 @@ macro_rules! new_curve_impl {
                 let x = $base::read_raw(reader)?;
                 let y = $base::read_raw(reader)?;
                 let z = $base::read_raw(reader)?;
-                Ok(Self { x, y, z })
+                let res = Self { x, y, z };
+                // Check that the point is on the curve.
+                if bool::from(res.is_on_curve()) {
+                    Ok(res)
+                } else {
+                    Err("Invalid point encoding: not on the curve")
+                }
             }
             fn write_raw<W: crate::io::Write>(&self, writer: &mut W) -> crate::io::Result<()> {
                 self.x.write_raw(writer)?;
@@ -677,7 +683,13 @@ macro_rules! new_curve_impl {
             fn read_raw<R: crate::io::Read>(reader: &mut R) -> crate::io::Result<Self> {
                 let x = $base::read_raw(reader)?;
                 let y = $base::read_raw(reader)?;
-                Ok(Self { x, y })
+                let res = Self { x, y };
+                // Check that the point is on the curve.
+                if bool::from(res.is_on_curve()) {
+                    Ok(res)
+                } else {
+                    Err("Invalid point encoding: not on the curve")
+                }
             }
             fn write_raw<W: crate::io::Write>(&self, writer: &mut W) -> crate::io::Result<()> {
                 self.x.write_raw(writer)?;
-- 
2.43.0


From 40ddeca3ec2022ac7ce99a2f73fa8ca14584e51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:32 +0000
Subject: [PATCH 9/9] fix: the prover counts the blinding rows when it chooses
 the circuit size

---
 ckb_bf_prover/src/main.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/ckb_bf_prover/src/main.rs b/ckb_bf_prover/src/main.rs
index e58063c..716ff1e 100644
--- a/ckb_bf_prover/src/main.rs
+++ b/ckb_bf_prover/src/main.rs
@@ -7,7 +7,9 @@ use ckb_bf_vm::code;
 use ckb_bf_vm::interpreter::Interpreter;
 use halo2_proofs::halo2curves::bn256::{Bn256, Fr, G1Affine};
 use halo2_proofs::halo2curves::FieldExt;
-use halo2_proofs::plonk::{create_proof, keygen_pk, keygen_vk, verify_proof, VerifyingKey};
+use halo2_proofs::plonk::{
+    create_proof, keygen_pk, keygen_vk, verify_proof, Circuit, ConstraintSystem, VerifyingKey,
+};
 use halo2_proofs::poly::commitment::{Params, ParamsProver};
 use halo2_proofs::poly::kzg::commitment::{KZGCommitmentScheme, ParamsKZG, ParamsVerifierKZG};
 use halo2_proofs::poly::kzg::multiopen::{ProverSHPLONK, VerifierSHPLONK};
@@ -147,11 +149,13 @@ fn main() -> Result<(), Box<dyn std::error::Error>> {
     }
     i.set_code(code.clone());
     i.run();
+    // The instruction table is the longest one. Its running sums take one row more than it has
+    // entries, and the blinding factors need rows as well.
+    let mut cs = ConstraintSystem::default();
+    MyCircuit::<Fr, { DOMAIN }>::configure(&mut cs);
+    let rows = i.matrix.instruction_matrix.len() + 1 + cs.blinding_factors() + 1;
     // the bf lookup table has k=8
-    let k = std::cmp::max(
-        i.matrix.instruction_matrix.len().next_power_of_two().trailing_zeros(),
-        9,
-    );
+    let k = std::cmp::max(rows.next_power_of_two().trailing_zeros(), 9);
 
     let circuit = MyCircuit::<Fr, { DOMAIN }>::new(i.matrix);
     prove_and_verify(k, circuit, c, input.into_bytes());
-- 
2.43.0

