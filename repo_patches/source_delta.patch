From 52153eef2f43ded0c66a118ed3a579d43924486e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:49 +0000
Subject: [PATCH 01/22] fix: bind the final running sums of the processor and
 instruction tables

The cells compared with the input, output and program tables lay one row past
the last row covered by the transition gates, so the prover could choose them
freely: neither the public input nor the public program was bound to the trace.
---
 ckb_bf_base/src/instruction_table.rs | 5 +++++
 ckb_bf_base/src/processor_table.rs   | 9 +++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/ckb_bf_base/src/instruction_table.rs b/ckb_bf_base/src/instruction_table.rs
index d245cd9..9c233d0 100644
--- a/ckb_bf_base/src/instruction_table.rs
+++ b/ckb_bf_base/src/instruction_table.rs
@@ -176,6 +176,11 @@ impl InstructionTable for InstructionTableConfig {
                     };
                     prp_prev = region.assign_advice(|| "prp", self.prp, idx + 1, || prp)?;
                     // cal and assign rs
+                    // The running sum stops at the last row: no gate covers a transition out of it,
+                    // so a cell past it would be free.
+                    if next_row.is_none() {
+                        break;
+                    }
                     let rs = if ip_next != ip_cur {
                         gamma * rs_prev.value() + ci.value()
                     } else {
diff --git a/ckb_bf_base/src/processor_table.rs b/ckb_bf_base/src/processor_table.rs
index 1ea21e6..0e47e57 100644
--- a/ckb_bf_base/src/processor_table.rs
+++ b/ckb_bf_base/src/processor_table.rs
@@ -356,6 +356,13 @@ impl<const RANGE: usize> ProcessorTable for ProcessorTableConfig<RANGE> {
                         mem_prp_prev.value() * (m_alpha - m_d * clk.value() - m_e * mp.value() - m_f * mv.value());
                     let inst_prp =
                         inst_prp_prev.value() * (i_alpha - i_d * ip.value() - i_e * ci.value() - i_f * ni.value());
+                    mem_prp_prev = region.assign_advice(|| "mem_prp", self.mem_prp, idx + 1, || mem_prp)?;
+                    inst_prp_prev = region.assign_advice(|| "inst prp", self.inst_prp, idx + 1, || inst_prp)?;
+                    // The running sums stop at the last row: no gate covers a transition out of it,
+                    // so a cell past it would be free.
+                    if idx == processor_matrix.len() - 1 {
+                        break;
+                    }
                     let output_rs = if reg.current_instruction == putchar_fr {
                         output_rs_prev.value() * out_gamma + mv.value()
                     } else {
@@ -370,8 +377,6 @@ impl<const RANGE: usize> ProcessorTable for ProcessorTableConfig<RANGE> {
                     } else {
                         input_rs_prev.value().map(|x| *x)
                     };
-                    mem_prp_prev = region.assign_advice(|| "mem_prp", self.mem_prp, idx + 1, || mem_prp)?;
-                    inst_prp_prev = region.assign_advice(|| "inst prp", self.inst_prp, idx + 1, || inst_prp)?;
                     output_rs_prev = region.assign_advice(|| "output rs", self.output_rs, idx + 1, || output_rs)?;
                     input_rs_prev = region.assign_advice(|| "input rs", self.input_rs, idx + 1, || input_rs)?;
                 }
-- 
2.43.0


From 3d0c3af65c2dbe7ee47073d0bcec04f19c6f8690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:11 +0000
Subject: [PATCH 02/22] fix: pin the initial cells of running products/sums and
 the public lengths

They were plain advice cells: a prover could pick the initial value that makes a
forged table's final value match, and claim any program or input length for the
rows it had copied. Running sums now start at 1, because leading zeros of a
sequence do not change a sum that starts at 0.
---
 ckb_bf_base/src/input_table.rs       |  8 ++++----
 ckb_bf_base/src/instruction_table.rs |  4 ++--
 ckb_bf_base/src/main_config.rs       |  3 +++
 ckb_bf_base/src/memory_table.rs      |  2 +-
 ckb_bf_base/src/output_table.rs      |  2 +-
 ckb_bf_base/src/processor_table.rs   | 10 +++++-----
 ckb_bf_base/src/program_table.rs     |  8 ++++----
 ckb_bf_base/src/utils.rs             |  3 +++
 8 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/ckb_bf_base/src/input_table.rs b/ckb_bf_base/src/input_table.rs
index a79371c..607800a 100644
--- a/ckb_bf_base/src/input_table.rs
+++ b/ckb_bf_base/src/input_table.rs
@@ -1,6 +1,6 @@
 use crate::utils::*;
 use ckb_bf_vm::matrix::Matrix;
-use halo2_proofs::circuit::{Layouter, Value};
+use halo2_proofs::circuit::Layouter;
 use halo2_proofs::halo2curves::bn256::Fr;
 use halo2_proofs::plonk::*;
 use halo2_proofs::poly::Rotation;
@@ -65,12 +65,12 @@ impl InputTable for InputTableConfig {
             || "Load input table",
             |mut region| {
                 // init rs_0
-                let mut rs_prev = region.assign_advice(|| "rs", self.rs, 0, || Value::known(Fr::zero()))?;
-                let len = region.assign_advice(
+                let mut rs_prev = region.assign_advice_from_constant(|| "rs", self.rs, 0, challenge.rs_init)?;
+                let len = region.assign_advice_from_constant(
                     || "Input length",
                     self.input_len,
                     0,
-                    || Value::known(Fr::from(matrix.input_matrix.len() as u64)),
+                    Fr::from(matrix.input_matrix.len() as u64),
                 )?;
                 for idx in 0..matrix.input_matrix.len() {
                     self.s_rs.enable(&mut region, idx)?;
diff --git a/ckb_bf_base/src/instruction_table.rs b/ckb_bf_base/src/instruction_table.rs
index 9c233d0..e232737 100644
--- a/ckb_bf_base/src/instruction_table.rs
+++ b/ckb_bf_base/src/instruction_table.rs
@@ -148,8 +148,8 @@ impl InstructionTable for InstructionTableConfig {
             || "Load Instruction Table",
             |mut region| {
                 let mut prp_prev =
-                    region.assign_advice(|| "prp", self.prp, 0, || Value::known(challenges.inst_prp_init))?;
-                let mut rs_prev = region.assign_advice(|| "rs", self.rs, 0, || Value::known(Fr::zero()))?;
+                    region.assign_advice_from_constant(|| "prp", self.prp, 0, challenges.inst_prp_init)?;
+                let mut rs_prev = region.assign_advice_from_constant(|| "rs", self.rs, 0, challenges.rs_init)?;
                 let instruction_matrix = &matrix.instruction_matrix;
                 self.s_prp_adhoc.enable(&mut region, instruction_matrix.len())?;
                 for (idx, row) in instruction_matrix.iter().enumerate() {
diff --git a/ckb_bf_base/src/main_config.rs b/ckb_bf_base/src/main_config.rs
index 8358f41..7a6f994 100644
--- a/ckb_bf_base/src/main_config.rs
+++ b/ckb_bf_base/src/main_config.rs
@@ -48,6 +48,9 @@ impl<const RANGE: usize> MainTable for MainConfig<RANGE> {
         let program_config = ProgramTableConfig::configure(cs);
         // Second phase tables
         let challenges = BFChallenge::init(cs);
+        // The initial cells of running products/sums and the lengths are fixed by the circuit
+        let constants = cs.fixed_column();
+        cs.enable_constant(constants);
         m_config.configure_second_phase(cs, challenges);
         p_config.configure_second_phase(cs, challenges);
         i_config.configure_second_phase(cs, challenges);
diff --git a/ckb_bf_base/src/memory_table.rs b/ckb_bf_base/src/memory_table.rs
index 0a29020..15f5ada 100644
--- a/ckb_bf_base/src/memory_table.rs
+++ b/ckb_bf_base/src/memory_table.rs
@@ -107,7 +107,7 @@ impl MemoryTable for MemoryTableConfig {
             |mut region| {
                 // init prp
                 let mut prp_prev =
-                    region.assign_advice(|| "prp", self.prp, 0, || Value::known(challenges.mem_prp_init))?;
+                    region.assign_advice_from_constant(|| "prp", self.prp, 0, challenges.mem_prp_init)?;
                 let memory_matrix = &matrix.memory_matrix;
                 for (idx, row) in memory_matrix.iter().enumerate() {
                     if idx < memory_matrix.len() - 1 {
diff --git a/ckb_bf_base/src/output_table.rs b/ckb_bf_base/src/output_table.rs
index db47791..9f68037 100644
--- a/ckb_bf_base/src/output_table.rs
+++ b/ckb_bf_base/src/output_table.rs
@@ -55,7 +55,7 @@ impl OutputTable for OutputTableConfig {
             || "Load output table",
             |mut region| {
                 // init rs_0
-                let mut rs_prev = region.assign_advice(|| "rs", self.rs, 0, || Value::known(Fr::zero()))?;
+                let mut rs_prev = region.assign_advice_from_constant(|| "rs", self.rs, 0, challenge.rs_init)?;
                 let output_matrix = &matrix.output_matrix;
                 for (idx, v) in output_matrix.iter().enumerate() {
                     self.s_rs.enable(&mut region, idx)?;
diff --git a/ckb_bf_base/src/processor_table.rs b/ckb_bf_base/src/processor_table.rs
index 0e47e57..d7e03e9 100644
--- a/ckb_bf_base/src/processor_table.rs
+++ b/ckb_bf_base/src/processor_table.rs
@@ -320,17 +320,17 @@ impl<const RANGE: usize> ProcessorTable for ProcessorTableConfig<RANGE> {
             |mut region| {
                 // init prp and rs
                 let mut mem_prp_prev =
-                    region.assign_advice(|| "mem prp", self.mem_prp, 0, || Value::known(challenges.mem_prp_init))?;
-                let mut inst_prp_prev = region.assign_advice(
+                    region.assign_advice_from_constant(|| "mem prp", self.mem_prp, 0, challenges.mem_prp_init)?;
+                let mut inst_prp_prev = region.assign_advice_from_constant(
                     || "inst prp",
                     self.inst_prp,
                     0,
-                    || Value::known(challenges.inst_prp_init),
+                    challenges.inst_prp_init,
                 )?;
                 let mut output_rs_prev =
-                    region.assign_advice(|| "output rs", self.output_rs, 0, || Value::known(Fr::zero()))?;
+                    region.assign_advice_from_constant(|| "output rs", self.output_rs, 0, challenges.rs_init)?;
                 let mut input_rs_prev =
-                    region.assign_advice(|| "input rs", self.input_rs, 0, || Value::known(Fr::zero()))?;
+                    region.assign_advice_from_constant(|| "input rs", self.input_rs, 0, challenges.rs_init)?;
                 let processor_matrix = &matrix.processor_matrix;
                 // B condition is enabled only for the first row
                 self.s_b.enable(&mut region, 0)?;
diff --git a/ckb_bf_base/src/program_table.rs b/ckb_bf_base/src/program_table.rs
index 8a9ec0b..a046d85 100644
--- a/ckb_bf_base/src/program_table.rs
+++ b/ckb_bf_base/src/program_table.rs
@@ -1,6 +1,6 @@
 use crate::utils::*;
 use ckb_bf_vm::matrix::Matrix;
-use halo2_proofs::circuit::{Layouter, Value};
+use halo2_proofs::circuit::Layouter;
 use halo2_proofs::halo2curves::bn256::Fr;
 use halo2_proofs::plonk::*;
 use halo2_proofs::poly::Rotation;
@@ -69,14 +69,14 @@ impl ProgramTable for ProgramTableConfig {
                 // The solution here is to let prover provide the program length, expose the
                 // program length as public
                 // And use constraint_instance to make sure the length is correct
-                let len = region.assign_advice(
+                let len = region.assign_advice_from_constant(
                     || "Program length",
                     self.program_len,
                     0,
-                    || Value::known(Fr::from(matrix.program.len() as u64)),
+                    Fr::from(matrix.program.len() as u64),
                 )?;
 
-                let mut rs_prev = region.assign_advice(|| "rs", self.code_rs, 0, || Value::known(Fr::zero()))?;
+                let mut rs_prev = region.assign_advice_from_constant(|| "rs", self.code_rs, 0, challenges.rs_init)?;
                 for idx in 0..matrix.program.len() {
                     self.s_rs.enable(&mut region, idx)?;
                     let code =
diff --git a/ckb_bf_base/src/utils.rs b/ckb_bf_base/src/utils.rs
index 674d5b8..47602ca 100644
--- a/ckb_bf_base/src/utils.rs
+++ b/ckb_bf_base/src/utils.rs
@@ -40,6 +40,8 @@ pub type BFCell = AssignedCell<Fr, Fr>;
 pub struct BFChallenge {
     pub(crate) mem_prp_init: Fr,
     pub(crate) inst_prp_init: Fr,
+    // Not zero: leading zeros of a summed sequence would not be counted otherwise.
+    pub(crate) rs_init: Fr,
     challenges: [Challenge; 11],
 }
 
@@ -49,6 +51,7 @@ impl BFChallenge {
             // TODO: make it random
             mem_prp_init: Fr::from(3),
             inst_prp_init: Fr::from(9),
+            rs_init: Fr::one(),
             challenges: [(); 11].map(|_| cs.challenge_usable_after(FirstPhase)),
         }
     }
-- 
2.43.0


From 9a76b6733246d2970f2ef0817cc5f9baabf16c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:18 +0000
Subject: [PATCH 03/22] fix: bind jump targets and the ends of the instruction
 table

The operand column (ni) of the instruction table was only required to be
constant per instruction pointer, so a prover could jump anywhere; the table
could start at another instruction pointer, and its last (dummy) row could hold
an instruction.
---
 ckb_bf_base/src/instruction_table.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/ckb_bf_base/src/instruction_table.rs b/ckb_bf_base/src/instruction_table.rs
index e232737..144bc53 100644
--- a/ckb_bf_base/src/instruction_table.rs
+++ b/ckb_bf_base/src/instruction_table.rs
@@ -28,6 +28,7 @@ pub struct InstructionTableConfig {
     s_prp_adhoc: Selector,
     s_rs: Selector,
     s_i: Selector, // Selector for condition I category (Instruction Table)
+    s_b: Selector, // Selector for the first row
 }
 
 impl InstructionTable for InstructionTableConfig {
@@ -45,6 +46,13 @@ impl InstructionTable for InstructionTableConfig {
         let s_rs = cs.selector();
         let s_prp_adhoc = cs.selector();
         let s_i = cs.selector();
+        let s_b = cs.selector();
+
+        cs.create_gate("ip_0 = 0", |vc| {
+            let ip = vc.query_advice(ip, Rotation::cur());
+            let s_b = vc.query_selector(s_b);
+            vec![s_b * ip]
+        });
 
         cs.create_gate("I0: Instruction pointer increases by 0 or 1", |vc| {
             let cur_ip = vc.query_advice(ip, Rotation::cur());
@@ -70,6 +78,15 @@ impl InstructionTable for InstructionTableConfig {
             let s_i = vc.query_selector(s_i);
             vec![s_i * (next_ip.clone() - cur_ip.clone() - one.clone()) * (next_ni.clone() - cur_ni.clone())]
         });
+
+        cs.create_gate("I3: If ip increases by 1, then ni is the next ci.", |vc| {
+            let cur_ip = vc.query_advice(ip, Rotation::cur());
+            let next_ip = vc.query_advice(ip, Rotation::next());
+            let cur_ni = vc.query_advice(ni, Rotation::cur());
+            let next_ci = vc.query_advice(ci, Rotation::next());
+            let s_i = vc.query_selector(s_i);
+            vec![s_i * (next_ip - cur_ip) * (next_ci - cur_ni)]
+        });
         Self {
             ip,
             ci,
@@ -77,6 +94,7 @@ impl InstructionTable for InstructionTableConfig {
             prp,
             rs,
             s_i,
+            s_b,
             s_prp,
             s_prp_adhoc,
             s_rs,
@@ -130,6 +148,8 @@ impl InstructionTable for InstructionTableConfig {
             let s_prp_adhoc = vc.query_selector(self.s_prp_adhoc);
             let [alpha, d, e, f] = challenges.get_inst_prp_challenges().map(|c| vc.query_challenge(c));
             vec![
+                s_prp_adhoc.clone() * ci_prev.clone(),
+                s_prp_adhoc.clone() * ni_prev.clone(),
                 s_prp_adhoc
                     * (prp_cur.clone() - prp_prev.clone() * (alpha - d * ip_prev.clone() - e * ci_prev - f * ni_prev)),
             ]
@@ -151,6 +171,7 @@ impl InstructionTable for InstructionTableConfig {
                     region.assign_advice_from_constant(|| "prp", self.prp, 0, challenges.inst_prp_init)?;
                 let mut rs_prev = region.assign_advice_from_constant(|| "rs", self.rs, 0, challenges.rs_init)?;
                 let instruction_matrix = &matrix.instruction_matrix;
+                self.s_b.enable(&mut region, 0)?;
                 self.s_prp_adhoc.enable(&mut region, instruction_matrix.len())?;
                 for (idx, row) in instruction_matrix.iter().enumerate() {
                     if idx < instruction_matrix.len() - 1 {
-- 
2.43.0


From 832eb2dfe2137d4360d36142e52faee66641d5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:18 +0000
Subject: [PATCH 04/22] fix: order the memory table by clk within each address

Rows of one address could come in any order, and the first row could hold any
address and value, so a prover could make the processor read a value that was
never the latest one written.
---
 ckb_bf_base/src/memory_table.rs | 39 +++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/ckb_bf_base/src/memory_table.rs b/ckb_bf_base/src/memory_table.rs
index 15f5ada..efa79e8 100644
--- a/ckb_bf_base/src/memory_table.rs
+++ b/ckb_bf_base/src/memory_table.rs
@@ -25,6 +25,9 @@ pub struct MemoryTableConfig {
     prp: Column<Advice>,
     s_m: Selector, // selector for condition m category (memory table)
     s_prp: Selector,
+    s_b: Selector,    // selector for the first row
+    s_clk: Selector,  // selector for the clk order lookup
+    gap: TableColumn, // the distances between two clks of the trace, less one
 }
 
 impl MemoryTable for MemoryTableConfig {
@@ -38,6 +41,28 @@ impl MemoryTable for MemoryTableConfig {
         cs.enable_equality(prp);
         let s_m = cs.selector();
         let s_prp = cs.selector();
+        let s_b = cs.selector();
+        let s_clk = cs.complex_selector();
+        let gap = cs.lookup_table_column();
+
+        cs.create_gate("Memory starts at mp = 0 with mv = 0", |vc| {
+            let mp = vc.query_advice(mp, Rotation::cur());
+            let mv = vc.query_advice(mv, Rotation::cur());
+            let s_b = vc.query_selector(s_b);
+            vec![s_b.clone() * mp, s_b * mv]
+        });
+
+        cs.lookup("If mp is unchanged, clk increases", |vc| {
+            let cur_mp = vc.query_advice(mp, Rotation::cur());
+            let next_mp = vc.query_advice(mp, Rotation::next());
+            let cur_clk = vc.query_advice(clk, Rotation::cur());
+            let next_clk = vc.query_advice(clk, Rotation::next());
+            let s_clk = vc.query_selector(s_clk);
+            vec![(
+                s_clk * (cur_mp + one.clone() - next_mp) * (next_clk - cur_clk - one.clone()),
+                gap,
+            )]
+        });
 
         cs.create_gate("M0: memory pointer either increase by one or by zero", |vc| {
             let cur_mp = vc.query_advice(mp, Rotation::cur());
@@ -78,6 +103,9 @@ impl MemoryTable for MemoryTableConfig {
             prp,
             s_m,
             s_prp,
+            s_b,
+            s_clk,
+            gap,
         }
     }
 
@@ -102,6 +130,15 @@ impl MemoryTable for MemoryTableConfig {
     ) -> Result<BFCell, Error> {
         // Read challenges
         let [alpha, d, e, f] = challenges.get_mem_prp_challenges().map(|c| layouter.get_challenge(c));
+        layouter.assign_table(
+            || "Load clk gaps",
+            |mut table| {
+                for value in 0..=matrix.memory_matrix.len() {
+                    table.assign_cell(|| "gap", self.gap, value, || Value::known(Fr::from(value as u64)))?;
+                }
+                Ok(())
+            },
+        )?;
         layouter.assign_region(
             || "Load Memory Table",
             |mut region| {
@@ -109,10 +146,12 @@ impl MemoryTable for MemoryTableConfig {
                 let mut prp_prev =
                     region.assign_advice_from_constant(|| "prp", self.prp, 0, challenges.mem_prp_init)?;
                 let memory_matrix = &matrix.memory_matrix;
+                self.s_b.enable(&mut region, 0)?;
                 for (idx, row) in memory_matrix.iter().enumerate() {
                     if idx < memory_matrix.len() - 1 {
                         // M condition is enabled except last row
                         self.s_m.enable(&mut region, idx)?;
+                        self.s_clk.enable(&mut region, idx)?;
                     }
                     self.s_prp.enable(&mut region, idx)?;
                     let clk = region.assign_advice(|| "clk", self.clk, idx, || Value::known(row.cycle))?;
-- 
2.43.0


From 75fa112ba8c60f92e78c20f50511d70aeca451ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:40 +0000
Subject: [PATCH 05/22] fix: choose k so that the instruction table fits

The rows reserved for blinding and the extra running-product row were not
counted: programs whose instruction table ends up just below a power of two made
the prover panic with NotEnoughRowsAvailable.
---
 ckb_bf_prover/src/main.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/ckb_bf_prover/src/main.rs b/ckb_bf_prover/src/main.rs
index e58063c..009405b 100644
--- a/ckb_bf_prover/src/main.rs
+++ b/ckb_bf_prover/src/main.rs
@@ -7,7 +7,9 @@ use ckb_bf_vm::code;
 use ckb_bf_vm::interpreter::Interpreter;
 use halo2_proofs::halo2curves::bn256::{Bn256, Fr, G1Affine};
 use halo2_proofs::halo2curves::FieldExt;
-use halo2_proofs::plonk::{create_proof, keygen_pk, keygen_vk, verify_proof, VerifyingKey};
+use halo2_proofs::plonk::{
+    create_proof, keygen_pk, keygen_vk, verify_proof, Circuit, ConstraintSystem, VerifyingKey,
+};
 use halo2_proofs::poly::commitment::{Params, ParamsProver};
 use halo2_proofs::poly::kzg::commitment::{KZGCommitmentScheme, ParamsKZG, ParamsVerifierKZG};
 use halo2_proofs::poly::kzg::multiopen::{ProverSHPLONK, VerifierSHPLONK};
@@ -147,11 +149,13 @@ fn main() -> Result<(), Box<dyn std::error::Error>> {
     }
     i.set_code(code.clone());
     i.run();
+    // The instruction table is the longest one. It takes one more row for its running product, and the
+    // last rows of the domain are reserved for blinding.
+    let mut cs = ConstraintSystem::default();
+    MyCircuit::<Fr, { DOMAIN }>::configure(&mut cs);
+    let rows = i.matrix.instruction_matrix.len() + 1 + cs.blinding_factors() + 1;
     // the bf lookup table has k=8
-    let k = std::cmp::max(
-        i.matrix.instruction_matrix.len().next_power_of_two().trailing_zeros(),
-        9,
-    );
+    let k = std::cmp::max(rows.next_power_of_two().trailing_zeros(), 9);
 
     let circuit = MyCircuit::<Fr, { DOMAIN }>::new(i.matrix);
     prove_and_verify(k, circuit, c, input.into_bytes());
-- 
2.43.0


From 6774a0927a20364cafb7746fbb37e3fbc104b218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:29 +0000
Subject: [PATCH 06/22] fix: replace the params cache and tx.json as a whole,
 and rebuild unusable params

A prover that crashed, met a full disk or raced with another one while writing
res/params_k.bin left a partial file, on which every later run panicked; a
partial or mixed res/tx.json could be left the same way.
---
 ckb_bf_prover/src/ckb_tx.rs |  3 ++-
 ckb_bf_prover/src/file.rs   | 17 +++++++++++++++++
 ckb_bf_prover/src/lib.rs    |  1 +
 ckb_bf_prover/src/main.rs   | 30 ++++++++++++++++++------------
 4 files changed, 38 insertions(+), 13 deletions(-)
 create mode 100644 ckb_bf_prover/src/file.rs

diff --git a/ckb_bf_prover/src/ckb_tx.rs b/ckb_bf_prover/src/ckb_tx.rs
index c813ec8..a36cc01 100644
--- a/ckb_bf_prover/src/ckb_tx.rs
+++ b/ckb_bf_prover/src/ckb_tx.rs
@@ -1,3 +1,4 @@
+use crate::file::write_atomically;
 use ckb_hash::blake2b_256;
 use ckb_jsonrpc_types::JsonBytes;
 use ckb_mock_tx_types::ReprMockTransaction;
@@ -22,7 +23,7 @@ pub fn build_ckb_tx(proof: &[u8], params: &[u8], vk: &[u8], code: &[u8], input:
     tx.mock_info.cell_deps[0].data = JsonBytes::from_vec(binary);
 
     let json = to_string_pretty(&tx).expect("json");
-    std::fs::write("res/tx.json", &json).expect("write");
+    write_atomically("res/tx.json", json.as_bytes()).expect("write");
 
     info!("res/tx.json is generated for binary file: {}", binary_name);
 }
diff --git a/ckb_bf_prover/src/file.rs b/ckb_bf_prover/src/file.rs
new file mode 100644
index 0000000..d6ea5f9
--- /dev/null
+++ b/ckb_bf_prover/src/file.rs
@@ -0,0 +1,17 @@
+use std::fs::{remove_file, rename, File};
+use std::io::{Result, Write};
+
+/// Replaces the file at `path` as a whole: whatever happens meanwhile (a crash, a full disk, another
+/// prover writing the same file), `path` holds either its old content or all of `data`.
+pub fn write_atomically(path: &str, data: &[u8]) -> Result<()> {
+    let tmp = format!("{}.{}.tmp", path, std::process::id());
+    let result = File::create(&tmp).and_then(|mut file| {
+        file.write_all(data)?;
+        file.sync_all()?;
+        rename(&tmp, path)
+    });
+    if result.is_err() {
+        let _ = remove_file(&tmp);
+    }
+    result
+}
diff --git a/ckb_bf_prover/src/lib.rs b/ckb_bf_prover/src/lib.rs
index 585190e..460d4e7 100644
--- a/ckb_bf_prover/src/lib.rs
+++ b/ckb_bf_prover/src/lib.rs
@@ -1 +1,2 @@
 pub mod ckb_tx;
+pub mod file;
diff --git a/ckb_bf_prover/src/main.rs b/ckb_bf_prover/src/main.rs
index 009405b..1d2068b 100644
--- a/ckb_bf_prover/src/main.rs
+++ b/ckb_bf_prover/src/main.rs
@@ -2,6 +2,7 @@ use ckb_bf_base::main_config::MyCircuit;
 use ckb_bf_base::utils::{read_verifier_params, DOMAIN};
 use ckb_bf_base::{GOD_PRIVATE_KEY, SHRINK_K};
 use ckb_bf_prover::ckb_tx::build_ckb_tx;
+use ckb_bf_prover::file::write_atomically;
 
 use ckb_bf_vm::code;
 use ckb_bf_vm::interpreter::Interpreter;
@@ -19,7 +20,7 @@ use log::info;
 use rand::SeedableRng;
 use rand_xorshift::XorShiftRng;
 use std::io::Read;
-use std::fs::{read, write};
+use std::fs::read;
 
 fn prove_and_verify(k: u32, circuit: MyCircuit<Fr, DOMAIN>, raw_code: Vec<u8>, raw_input: Vec<u8>) {
     info!("Prepare public_inputs");
@@ -35,17 +36,22 @@ fn prove_and_verify(k: u32, circuit: MyCircuit<Fr, DOMAIN>, raw_code: Vec<u8>, r
     let s = Fr::from_u128(GOD_PRIVATE_KEY);
     info!("Start trusted setup (k={}), using unsafe GOD_PRIVATE_KEY (42) ...", k);
     let general_params = {
-        let r = read(&format!("res/params_{}.bin", k));
-        if r.is_err() {
-            info!("No local params, generate new one.");
-            let params = ParamsKZG::<Bn256>::unsafe_setup_with_s(k, s);
-            let mut buf = vec![];
-            params.write(&mut buf).expect("Write params to buf failed.");
-            write(&format!("res/params_{}.bin", k), buf).expect("Write params to file failed");
-            params
-        } else {
-            info!("Use local params.");
-            ParamsKZG::<Bn256>::read(&mut r.unwrap().as_slice()).expect("Read params from file failed.")
+        let path = format!("res/params_{}.bin", k);
+        // A file left incomplete by an interrupted run is as good as none.
+        let local = read(&path).ok().and_then(|buf| ParamsKZG::<Bn256>::read(&mut buf.as_slice()).ok());
+        match local.filter(|params| params.k() == k) {
+            None => {
+                info!("No local params, generate new one.");
+                let params = ParamsKZG::<Bn256>::unsafe_setup_with_s(k, s);
+                let mut buf = vec![];
+                params.write(&mut buf).expect("Write params to buf failed.");
+                write_atomically(&path, &buf).expect("Write params to file failed");
+                params
+            }
+            Some(params) => {
+                info!("Use local params.");
+                params
+            }
         }
     };
     let mut verifier_params: ParamsVerifierKZG<Bn256> = general_params.verifier_params().clone();
-- 
2.43.0


From 8eb9db1df3d20f44c160900bba1b1a0bac2aa0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:48 +0000
Subject: [PATCH 07/22] fix: check that a point read from raw bytes is on the
 curve

SerdeFormat::RawBytes documents this check, and from_raw_bytes makes it, but
read_raw accepted any pair of field elements: parameters and verifying keys with
flipped bits were loaded as if they were sound.
---
 halo2curves/src/derive/curve.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/halo2curves/src/derive/curve.rs b/halo2curves/src/derive/curve.rs
index d8d6c98..6f9d1c7 100644
--- a/halo2curves/src/derive/curve.rs
+++ b/halo2curves/src/derive/curve.rs
@@ -512,7 +512,8 @@ macro_rules! new_curve_impl {
                 let x = $base::read_raw(reader)?;
                 let y = $base::read_raw(reader)?;
                 let z = $base::read_raw(reader)?;
-                Ok(Self { x, y, z })
+                let res = Self { x, y, z };
+                bool::from(res.is_on_curve()).then(|| res).ok_or("input point is not on the curve")
             }
             fn write_raw<W: crate::io::Write>(&self, writer: &mut W) -> crate::io::Result<()> {
                 self.x.write_raw(writer)?;
@@ -677,7 +678,8 @@ macro_rules! new_curve_impl {
             fn read_raw<R: crate::io::Read>(reader: &mut R) -> crate::io::Result<Self> {
                 let x = $base::read_raw(reader)?;
                 let y = $base::read_raw(reader)?;
-                Ok(Self { x, y })
+                let res = Self { x, y };
+                bool::from(res.is_on_curve()).then(|| res).ok_or("input point is not on the curve")
             }
             fn write_raw<W: crate::io::Write>(&self, writer: &mut W) -> crate::io::Result<()> {
                 self.x.write_raw(writer)?;
-- 
2.43.0


From 47bf3ca887dfebd5ba9aae6ff57a8c058ae115b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:06 +0000
Subject: [PATCH 08/22] fix: report a damaged verifying key as an error and
 honour the key format

---
 halo2_proofs/src/plonk.rs                     | 38 +++++--------
 halo2_proofs/src/plonk/circuit.rs             | 54 ++++++++++++++++---
 .../src/plonk/circuit/compress_selectors.rs   |  4 +-
 3 files changed, 61 insertions(+), 35 deletions(-)

diff --git a/halo2_proofs/src/plonk.rs b/halo2_proofs/src/plonk.rs
index 764f06b..aa170f0 100644
--- a/halo2_proofs/src/plonk.rs
+++ b/halo2_proofs/src/plonk.rs
@@ -12,7 +12,7 @@ use halo2curves::pairing::Engine;
 
 use crate::arithmetic::{CurveAffine, FieldExt};
 use crate::helpers::{
-    polynomial_slice_byte_length, read_polynomial_vec, write_polynomial_slice, SerdeCurveAffine,
+    read_polynomial_vec, write_polynomial_slice, SerdeCurveAffine,
     SerdePrimeField,
 };
 use crate::poly::{
@@ -104,6 +104,9 @@ where
         let mut k = [0u8; 4];
         reader.read_exact(&mut k)?;
         let k = u32::from_be_bytes(k);
+        if k > C::Scalar::S {
+            return Err("k is too large");
+        }
         let (domain, cs, _) = keygen::create_domain::<C, ConcreteCircuit>(k);
         let mut num_fixed_columns = [0u8; 4];
         reader.read_exact(&mut num_fixed_columns)?;
@@ -119,8 +122,13 @@ where
         let mut length = [0u8; 4];
         reader.read_exact(&mut length)?;
         let length = u32::from_be_bytes(length) as usize;
-        let selector_assignments = (0..length).map(|_| SelectorAssignment::read(reader).unwrap()).collect::<Vec<_>>();
-        let cs = cs.ckb_recreate_side_effect(selector_assignments.clone());
+        let selector_assignments = (0..length)
+            .map(|_| SelectorAssignment::read(reader, format))
+            .collect::<Result<Vec<_>, _>>()?;
+        let cs = cs.ckb_recreate_side_effect(selector_assignments.clone())?;
+        if fixed_commitments.len() != cs.num_fixed_columns {
+            return Err("Unexpected number of fixed columns");
+        }
 
         Ok(Self::from_parts(
             domain,
@@ -133,7 +141,7 @@ where
 
     /// Writes a verifying key to a vector of bytes using [`Self::write`].
     pub fn to_bytes(&self, format: SerdeFormat) -> Vec<u8> {
-        let mut bytes = Vec::<u8>::with_capacity(self.bytes_length());
+        let mut bytes = Vec::<u8>::new();
         Self::write(self, &mut bytes, format).expect("Writing to vector should not fail");
         bytes
     }
@@ -148,14 +156,6 @@ where
 }
 
 impl<C: CurveAffine> VerifyingKey<C> {
-    fn bytes_length(&self) -> usize {
-        // Xiaowen: TODO bytes_length cannot work due to CurveAffine doesn't have a serialization
-        // trait and hence size of selector_assignments cannot be calcualted.
-        panic!("Should not be called");
-        8 + (self.fixed_commitments.len() * C::default().to_bytes().as_ref().len())
-            + self.permutation.bytes_length()
-    }
-
     fn from_parts(
         domain: EvaluationDomain<C::Scalar>,
         fixed_commitments: Vec<C>,
@@ -263,18 +263,6 @@ impl<C: CurveAffine> ProvingKey<C> {
     pub fn get_vk(&self) -> &VerifyingKey<C> {
         &self.vk
     }
-
-    /// Gets the total number of bytes in the serialization of `self`
-    fn bytes_length(&self) -> usize {
-        let scalar_len = C::Scalar::default().to_repr().as_ref().len();
-        self.vk.bytes_length()
-            + 12
-            + scalar_len * (self.l0.len() + self.l_last.len() + self.l_active_row.len())
-            + polynomial_slice_byte_length(&self.fixed_values)
-            + polynomial_slice_byte_length(&self.fixed_polys)
-            //+ polynomial_slice_byte_length(&self.fixed_cosets)
-            + self.permutation.bytes_length()
-    }
 }
 
 impl<C: SerdeCurveAffine> ProvingKey<C>
@@ -342,7 +330,7 @@ where
 
     /// Writes a proving key to a vector of bytes using [`Self::write`].
     pub fn to_bytes(&self, format: SerdeFormat) -> Vec<u8> {
-        let mut bytes = Vec::<u8>::with_capacity(self.bytes_length());
+        let mut bytes = Vec::<u8>::new();
         Self::write(self, &mut bytes, format).expect("Writing to vector should not fail");
         bytes
     }
diff --git a/halo2_proofs/src/plonk/circuit.rs b/halo2_proofs/src/plonk/circuit.rs
index 497da2e..4ed95a3 100644
--- a/halo2_proofs/src/plonk/circuit.rs
+++ b/halo2_proofs/src/plonk/circuit.rs
@@ -782,7 +782,7 @@ impl<F: SerdePrimeField> Expression<F> {
         reader.read_exact(&mut typ)?;
         let expression = match typ[0] {
             0x00 => {
-                let scalar = F::read(reader, format).unwrap();
+                let scalar = F::read(reader, format)?;
                 Ok(Expression::Constant(scalar))
             }
             0x01 => {
@@ -1897,23 +1897,61 @@ impl<F: Field> ConstraintSystem<F> {
      * ckb-bf-zkvm:
      * Recreate side-effect of compress_selectors on the constraint system
      */
-    pub fn ckb_recreate_side_effect(mut self, selector_assignments: Vec<SelectorAssignment<F>>) -> Self {
+    pub fn ckb_recreate_side_effect(
+        mut self,
+        selector_assignments: Vec<SelectorAssignment<F>>,
+    ) -> io::Result<Self> {
+        // The assignments come from a serialized key, they must describe every selector once.
+        if selector_assignments.len() != self.num_selectors {
+            return Err("Unexpected number of selector assignments");
+        }
         let mut selector_map = vec![None; selector_assignments.len()];
         let mut selector_replacements = vec![None; selector_assignments.len()];
         let mut new_columns = vec![];
         for assignment in selector_assignments {
-            selector_replacements[assignment.selector] = Some(assignment.expression);
             let combination_index = assignment.combination_index;
-            if combination_index >= new_columns.len() {
+            if assignment.selector >= self.num_selectors || combination_index > new_columns.len() {
+                return Err("Invalid selector assignment");
+            }
+            selector_replacements[assignment.selector] = Some(assignment.expression);
+            if combination_index == new_columns.len() {
                 let column = self.fixed_column();
                 self.query_fixed_index(column, Rotation::cur());
                 new_columns.push(column);
             }
-            selector_map[assignment.selector] = Some(new_columns[assignment.combination_index]);
+            selector_map[assignment.selector] = Some(new_columns[combination_index]);
         }
 
-        self.selector_map = selector_map.clone().into_iter().map(|a| a.unwrap()).collect::<Vec<_>>();
-        let selector_replacements = selector_replacements.into_iter().map(|a| a.unwrap()).collect::<Vec<_>>();
+        self.selector_map = selector_map
+            .into_iter()
+            .collect::<Option<Vec<_>>>()
+            .ok_or("Missing selector assignment")?;
+        let selector_replacements = selector_replacements
+            .into_iter()
+            .collect::<Option<Vec<_>>>()
+            .ok_or("Missing selector assignment")?;
+        // A selector is replaced by an expression over the fixed columns.
+        for expression in &selector_replacements {
+            let valid = expression.evaluate(
+                &|_| true,
+                &|_| false,
+                &|query: FixedQuery| {
+                    self.fixed_queries.get(query.index).map_or(false, |(column, rotation)| {
+                        column.index == query.column_index && *rotation == query.rotation
+                    })
+                },
+                &|_| false,
+                &|_| false,
+                &|_| false,
+                &|a| a,
+                &|a, b| a && b,
+                &|a, b| a && b,
+                &|a, _| a,
+            );
+            if !valid {
+                return Err("Invalid selector expression");
+            }
+        }
 
         fn replace_selectors<F: Field>(
             expr: &mut Expression<F>,
@@ -1957,7 +1995,7 @@ impl<F: Field> ConstraintSystem<F> {
         {
             replace_selectors(expr, &selector_replacements, true);
         }
-        self
+        Ok(self)
     }
 
     /// This will compress selectors together depending on their provided
diff --git a/halo2_proofs/src/plonk/circuit/compress_selectors.rs b/halo2_proofs/src/plonk/circuit/compress_selectors.rs
index d50b391..95f5f0f 100644
--- a/halo2_proofs/src/plonk/circuit/compress_selectors.rs
+++ b/halo2_proofs/src/plonk/circuit/compress_selectors.rs
@@ -42,14 +42,14 @@ impl<F: SerdePrimeField> SelectorAssignment<F> {
         Ok(())
     }
 
-    pub fn read<R: io::Read>(reader: &mut R) -> io::Result<Self> {
+    pub fn read<R: io::Read>(reader: &mut R, format: SerdeFormat) -> io::Result<Self> {
         let mut selector = [0u8; 4];
         reader.read_exact(&mut selector)?;
         let selector = u32::from_be_bytes(selector) as usize;
         let mut combination_index = [0u8; 4];
         reader.read_exact(&mut combination_index)?;
         let combination_index = u32::from_be_bytes(combination_index) as usize;
-        let expression = Expression::read(reader, SerdeFormat::RawBytes).unwrap();
+        let expression = Expression::read(reader, format)?;
         Ok(Self {
             selector,
             combination_index,
-- 
2.43.0


From 4af516e0a4ea24513a631f1bcb76e94e6ae6f3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:06 +0000
Subject: [PATCH 09/22] fix: reject malformed witnesses instead of panicking

---
 ckb_bf_base/src/utils.rs    |  4 ++--
 ckb_bf_verifier/src/main.rs | 10 +++++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/ckb_bf_base/src/utils.rs b/ckb_bf_base/src/utils.rs
index 47602ca..9b415cd 100644
--- a/ckb_bf_base/src/utils.rs
+++ b/ckb_bf_base/src/utils.rs
@@ -86,7 +86,7 @@ where
     let mut k = [0u8; 4];
     reader.read_exact(&mut k[..])?;
     let k = u32::from_le_bytes(k);
-    let n = 1 << k;
+    let n = 1u64.checked_shl(k).ok_or("k is too large")?;
     let shrink_n = 1 << shrink_k;
 
     let format = SerdeFormat::RawBytes;
@@ -99,7 +99,7 @@ where
 
     Ok(ParamsVerifierKZG {
         k,
-        n: n as u64,
+        n,
         g,
         g_lagrange,
         g2,
diff --git a/ckb_bf_verifier/src/main.rs b/ckb_bf_verifier/src/main.rs
index debd681..235a052 100644
--- a/ckb_bf_verifier/src/main.rs
+++ b/ckb_bf_verifier/src/main.rs
@@ -74,9 +74,13 @@ pub fn program_entry() -> i8 {
             return -1;
         }
     };
-    assert!(raw_code_len % 2 == 0); // san-check
+    // san-check
+    if raw_code_len % 2 != 0 {
+        debug(format!("Odd program length: {:?}", raw_code_len));
+        return -1;
+    }
     let code_len = raw_code_len / 2;
-    let mut code = [Fr::zero(); 1024];
+    let mut code = [Fr::zero(); 1025]; // the length and up to 1024 instructions
     code[0] = Fr::from(code_len as u64);
     (0..code_len).for_each(|idx| {
         code[idx + 1] = Fr::from(u16::from_le_bytes([code_buffer[idx * 2], code_buffer[idx * 2 + 1]]) as u64)
@@ -93,7 +97,7 @@ pub fn program_entry() -> i8 {
             return -1;
         }
     };
-    let mut input = [Fr::zero(); 1024];
+    let mut input = [Fr::zero(); 1025]; // the length and up to 1024 bytes
     input[0] = Fr::from(input_len as u64);
     (0..input_len).for_each(|idx| {
         input[idx+1] = Fr::from(input_buffer[idx] as u64);
-- 
2.43.0


From 72971bc3dd24d8638670058629bff74bf2d0bccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:08 +0000
Subject: [PATCH 10/22] fix: reject stray bits in compressed points

---
 halo2curves/src/derive/curve.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/halo2curves/src/derive/curve.rs b/halo2curves/src/derive/curve.rs
index 6f9d1c7..8c76654 100644
--- a/halo2curves/src/derive/curve.rs
+++ b/halo2curves/src/derive/curve.rs
@@ -609,8 +609,10 @@ macro_rules! new_curve_impl {
                 tmp[$compressed_size - 1] &= 0b0111_1111;
                 let mut xbytes = [0u8; $base::size()];
                 xbytes.copy_from_slice(&tmp[ ..$base::size()]);
+                // A byte past the coordinate holds nothing but the sign.
+                let stray = tmp[$base::size()..].iter().fold(0, |acc, byte| acc | byte);
 
-                $base::from_bytes(&xbytes).and_then(|x| {
+                $base::from_bytes(&xbytes).and_then(|x| CtOption::new(x, stray.ct_eq(&0))).and_then(|x| {
                     CtOption::new(Self::identity(), x.is_zero() & (!ysign)).or_else(|| {
                         let x3 = x.square() * x;
                         (x3 + $name::curve_constant_b()).sqrt().and_then(|y| {
-- 
2.43.0


From 5d63b00148ec39263fe3a16a3f6b01ec8a70dcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:02 +0000
Subject: [PATCH 11/22] Hooks for simulating a deviating prover (cfg dst)

---
 halo2_proofs/src/dst.rs                      | 84 ++++++++++++++++++++
 halo2_proofs/src/lib.rs                      |  2 +
 halo2_proofs/src/plonk/lookup/prover.rs      | 16 ++++
 halo2_proofs/src/plonk/permutation/prover.rs |  2 +
 halo2_proofs/src/poly.rs                     |  2 +
 5 files changed, 106 insertions(+)
 create mode 100644 halo2_proofs/src/dst.rs

diff --git a/halo2_proofs/src/dst.rs b/halo2_proofs/src/dst.rs
new file mode 100644
index 0000000..9bee5ef
--- /dev/null
+++ b/halo2_proofs/src/dst.rs
@@ -0,0 +1,84 @@
+//! Fault injection for the simulator: lets it act as a prover that deviates from the protocol.
+//!
+//! Only compiled with `--cfg dst`, and without effect unless a hook is set.
+
+extern crate std;
+
+use alloc::{boxed::Box, vec::Vec};
+use core::any::Any;
+use core::cell::RefCell;
+
+/// What a hook is shown.
+#[derive(Debug)]
+pub enum Site<'a> {
+    /// Compressed input and table values of a lookup and the number of usable rows, as
+    /// `Vec<F>`; the reply is a `Vec<(F, F)>` of permuted values (rows beyond its length become random).
+    LookupPermuted(&'a dyn Any, &'a dyn Any, usize),
+    /// The product polynomial of a lookup, as `Vec<F>`.
+    LookupProduct(&'a mut dyn Any),
+    /// A product polynomial of the permutation argument, as `Vec<F>`.
+    PermutationProduct(&'a mut dyn Any),
+}
+
+type Hook = Box<dyn FnMut(Site<'_>) -> Option<Box<dyn Any>>>;
+
+std::thread_local! {
+    static HOOK: RefCell<Option<Hook>> = RefCell::new(None);
+}
+
+/// Sets or removes the hook of this thread.
+pub fn set(hook: Option<Hook>) {
+    HOOK.with(|h| *h.borrow_mut() = hook);
+}
+
+fn call(site: Site<'_>) -> Option<Box<dyn Any>> {
+    HOOK.with(|h| h.borrow_mut().as_mut().and_then(|f| f(site)))
+}
+
+pub(crate) fn lookup_permuted<F: Clone + 'static>(
+    input: &[F],
+    table: &[F],
+    usable: usize,
+) -> Option<Vec<(F, F)>> {
+    let reply = call(Site::LookupPermuted(&input.to_vec(), &table.to_vec(), usable))?;
+    reply.downcast().ok().map(|b| *b)
+}
+
+fn alter<F: Clone + 'static>(z: &mut [F], f: impl FnOnce(&mut dyn Any)) {
+    let mut v = z.to_vec();
+    f(&mut v);
+    z.clone_from_slice(&v);
+}
+
+pub(crate) fn lookup_product<F: Clone + 'static>(z: &mut [F]) {
+    alter(z, |v| {
+        call(Site::LookupProduct(v));
+    });
+}
+
+pub(crate) fn permutation_product<F: Clone + 'static>(z: &mut [F]) {
+    alter(z, |v| {
+        call(Site::PermutationProduct(v));
+    });
+}
+
+/// A query for the opening provers, whose constructor is private.
+pub fn prover_query<'a, C: halo2curves::CurveAffine>(
+    point: C::Scalar,
+    poly: &'a crate::poly::Polynomial<C::Scalar, crate::poly::Coeff>,
+    blind: crate::poly::commitment::Blind<C::Scalar>,
+) -> crate::poly::ProverQuery<'a, C> {
+    crate::poly::ProverQuery { point, poly, blind }
+}
+
+/// Point, evaluation and commitment (none for a linear combination) of a verifier's query.
+pub fn verifier_query<C: halo2curves::CurveAffine, M: crate::poly::commitment::MSM<C>>(
+    q: &crate::poly::VerifierQuery<'_, C, M>,
+) -> (C::Scalar, C::Scalar, Option<C>) {
+    use crate::poly::CommitmentReference;
+    let c = match q.commitment {
+        CommitmentReference::Commitment(c) => Some(*c),
+        CommitmentReference::MSM(_) => None,
+    };
+    (q.point, q.eval, c)
+}
diff --git a/halo2_proofs/src/lib.rs b/halo2_proofs/src/lib.rs
index 6560f8d..42b2e37 100644
--- a/halo2_proofs/src/lib.rs
+++ b/halo2_proofs/src/lib.rs
@@ -54,6 +54,8 @@ pub mod poly;
 pub mod transcript;
 
 pub mod dev;
+#[cfg(dst)]
+pub mod dst;
 pub mod helpers;
 pub use helpers::SerdeFormat;
 
diff --git a/halo2_proofs/src/plonk/lookup/prover.rs b/halo2_proofs/src/plonk/lookup/prover.rs
index 7060a2f..9ec624b 100644
--- a/halo2_proofs/src/plonk/lookup/prover.rs
+++ b/halo2_proofs/src/plonk/lookup/prover.rs
@@ -250,6 +250,12 @@ impl<C: CurveAffine> Permuted<C> {
             .collect::<Vec<_>>();
         assert_eq!(z.len(), params.n() as usize);
         let z = pk.vk.domain.lagrange_from_vec(z);
+        #[cfg(dst)]
+        let z = {
+            let mut z = z;
+            crate::dst::lookup_product(&mut z);
+            z
+        };
 
         #[cfg(feature = "sanity-checks")]
         // This test works only with intermediate representations in this method.
@@ -401,6 +407,16 @@ fn permute_expression_pair<'params, C: CurveAffine, P: Params<'params, C>, R: Rn
     let blinding_factors = pk.vk.cs.blinding_factors();
     let usable_rows = params.n() as usize - (blinding_factors + 1);
 
+    #[cfg(dst)]
+    if let Some(rows) =
+        crate::dst::lookup_permuted(input_expression, table_expression, usable_rows)
+    {
+        let (mut a, mut s): (Vec<_>, Vec<_>) = rows.into_iter().unzip();
+        a.resize_with(params.n() as usize, || C::Scalar::random(&mut rng));
+        s.resize_with(params.n() as usize, || C::Scalar::random(&mut rng));
+        return Ok((domain.lagrange_from_vec(a), domain.lagrange_from_vec(s)));
+    }
+
     let mut permuted_input_expression: Vec<C::Scalar> = input_expression.to_vec();
     permuted_input_expression.truncate(usable_rows);
 
diff --git a/halo2_proofs/src/plonk/permutation/prover.rs b/halo2_proofs/src/plonk/permutation/prover.rs
index 175a4a6..e2dfbdc 100644
--- a/halo2_proofs/src/plonk/permutation/prover.rs
+++ b/halo2_proofs/src/plonk/permutation/prover.rs
@@ -162,6 +162,8 @@ impl Argument {
             for z in &mut z[params.n() as usize - blinding_factors..] {
                 *z = C::Scalar::random(&mut rng);
             }
+            #[cfg(dst)]
+            crate::dst::permutation_product(&mut z);
             // Set new last_z
             last_z = z[params.n() as usize - (blinding_factors + 1)];
 
diff --git a/halo2_proofs/src/poly.rs b/halo2_proofs/src/poly.rs
index dc90f00..cfd505c 100644
--- a/halo2_proofs/src/poly.rs
+++ b/halo2_proofs/src/poly.rs
@@ -32,6 +32,8 @@ pub mod kzg;
 mod multiopen_test;
 
 pub use domain::*;
+#[cfg(dst)]
+pub(crate) use query::CommitmentReference;
 pub use query::{ProverQuery, VerifierQuery};
 pub use strategy::{Guard, VerificationStrategy};
 
-- 
2.43.0


From fc90c48911ad3d41414b4226107e8f347eba6603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:23 +0000
Subject: [PATCH 12/22] fix: the mock prover does not report public inputs as
 unassigned cells

---
 halo2_proofs/src/dev.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/halo2_proofs/src/dev.rs b/halo2_proofs/src/dev.rs
index dcd40b7..9b449ee 100644
--- a/halo2_proofs/src/dev.rs
+++ b/halo2_proofs/src/dev.rs
@@ -731,8 +731,11 @@ impl<F: FieldExt> MockProver<F> {
                                 // Determine where this cell should have been assigned.
                                 let cell_row = ((gate_row + n + cell.rotation.0) % n) as usize;
 
-                                // Check that it was assigned!
-                                if r.cells.get(&(cell.column, cell_row)).is_some() {
+                                // Check that it was assigned! Instance cells are never assigned
+                                // in a region.
+                                if *cell.column.column_type() == Any::Instance
+                                    || r.cells.get(&(cell.column, cell_row)).is_some()
+                                {
                                     None
                                 } else {
                                     Some(VerifyFailure::CellNotAssigned {
@@ -1093,8 +1096,11 @@ impl<F: FieldExt> MockProver<F> {
                                         let cell_row =
                                             ((gate_row + n + cell.rotation.0) % n) as usize;
 
-                                        // Check that it was assigned!
-                                        if r.cells.contains_key(&(cell.column, cell_row)) {
+                                        // Check that it was assigned! Instance cells are never
+                                        // assigned in a region.
+                                        if *cell.column.column_type() == Any::Instance
+                                            || r.cells.contains_key(&(cell.column, cell_row))
+                                        {
                                             None
                                         } else {
                                             Some(VerifyFailure::CellNotAssigned {
-- 
2.43.0


From 0b9de7392af87ac3e61b3dcc284d3e65aa34ac35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:45 +0000
Subject: [PATCH 13/22] fix: reject contradictory claims about one commitment
 and point

---
 halo2_proofs/src/poly/ipa/multiopen/verifier.rs |  6 +++++-
 .../src/poly/kzg/multiopen/shplonk/verifier.rs  |  6 +++++-
 halo2_proofs/src/poly/query.rs                  | 17 +++++++++++++++++
 3 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/halo2_proofs/src/poly/ipa/multiopen/verifier.rs b/halo2_proofs/src/poly/ipa/multiopen/verifier.rs
index 0c4888f..fd2cb6c 100644
--- a/halo2_proofs/src/poly/ipa/multiopen/verifier.rs
+++ b/halo2_proofs/src/poly/ipa/multiopen/verifier.rs
@@ -13,7 +13,7 @@ use crate::poly::commitment::{Params, Verifier, MSM};
 use crate::poly::ipa::commitment::{IPACommitmentScheme, ParamsIPA, ParamsVerifierIPA};
 use crate::poly::ipa::msm::MSMIPA;
 use crate::poly::ipa::strategy::GuardIPA;
-use crate::poly::query::{CommitmentReference, VerifierQuery};
+use crate::poly::query::{contradictory, CommitmentReference, VerifierQuery};
 use crate::poly::strategy::VerificationStrategy;
 use crate::poly::Error;
 use crate::transcript::{EncodedChallenge, TranscriptRead};
@@ -54,6 +54,10 @@ impl<'params, C: CurveAffine> Verifier<'params, IPACommitmentScheme<C>>
         // polynomial terms linearly independent.
         let x_2: ChallengeX2<_> = transcript.squeeze_challenge_scalar();
 
+        // The sets keep one claim per commitment and point
+        if contradictory(queries.clone()) {
+            return Err(Error::OpeningError);
+        }
         let (commitment_map, point_sets) = construct_intermediate_sets(queries);
 
         // Compress the commitments and expected evaluations at x together.
diff --git a/halo2_proofs/src/poly/kzg/multiopen/shplonk/verifier.rs b/halo2_proofs/src/poly/kzg/multiopen/shplonk/verifier.rs
index f6845f7..fea5f7f 100644
--- a/halo2_proofs/src/poly/kzg/multiopen/shplonk/verifier.rs
+++ b/halo2_proofs/src/poly/kzg/multiopen/shplonk/verifier.rs
@@ -14,7 +14,7 @@ use crate::poly::kzg::commitment::{KZGCommitmentScheme, ParamsKZG};
 use crate::poly::kzg::msm::DualMSM;
 use crate::poly::kzg::msm::{PreMSM, MSMKZG};
 use crate::poly::kzg::strategy::{AccumulatorStrategy, GuardKZG, SingleStrategy};
-use crate::poly::query::Query;
+use crate::poly::query::{contradictory, Query};
 use crate::poly::query::{CommitmentReference, VerifierQuery};
 use crate::poly::strategy::VerificationStrategy;
 use crate::poly::{
@@ -64,6 +64,10 @@ where
     where
         I: IntoIterator<Item = VerifierQuery<'com, E::G1Affine, MSMKZG<E>>> + Clone,
     {
+        // The sets keep one claim per commitment and point
+        if contradictory(queries.clone()) {
+            return Err(Error::OpeningError);
+        }
         let intermediate_sets = construct_intermediate_sets(queries);
         let (rotation_sets, super_point_set) = (
             intermediate_sets.rotation_sets,
diff --git a/halo2_proofs/src/poly/query.rs b/halo2_proofs/src/poly/query.rs
index d66a488..12e85e0 100644
--- a/halo2_proofs/src/poly/query.rs
+++ b/halo2_proofs/src/poly/query.rs
@@ -4,6 +4,7 @@ use super::commitment::{Blind, CommitmentScheme, Params, MSM};
 use crate::{
     arithmetic::eval_polynomial,
     poly::{commitment, Coeff, Polynomial},
+    Vec,
 };
 use ff::Field;
 use halo2curves::CurveAffine;
@@ -17,6 +18,22 @@ pub trait Query<F>: Sized + Clone + Send + Sync {
     fn get_commitment(&self) -> Self::Commitment;
 }
 
+/// Are there two queries that claim different evaluations of one commitment at one point?
+pub(crate) fn contradictory<F: PartialEq, I, Q: Query<F>>(queries: I) -> bool
+where
+    I: IntoIterator<Item = Q>,
+    Q::Eval: PartialEq,
+{
+    let queries = queries.into_iter().collect::<Vec<_>>();
+    queries.iter().enumerate().any(|(i, a)| {
+        queries[..i].iter().any(|b| {
+            a.get_commitment() == b.get_commitment()
+                && a.get_point() == b.get_point()
+                && a.get_eval() != b.get_eval()
+        })
+    })
+}
+
 /// A polynomial query at a point
 #[derive(Debug, Clone)]
 pub struct ProverQuery<'com, C: CurveAffine> {
-- 
2.43.0


From bbf7a43cdfff891acc9bd379aa907044a2144d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:26 +0000
Subject: [PATCH 14/22] Hooks for simulating a deviating prover: factors
 between batch members (cfg dst)

---
 halo2_proofs/src/dst.rs          | 6 ++++++
 halo2_proofs/src/poly/ipa/msm.rs | 4 ++++
 halo2_proofs/src/poly/kzg/msm.rs | 4 ++++
 3 files changed, 14 insertions(+)

diff --git a/halo2_proofs/src/dst.rs b/halo2_proofs/src/dst.rs
index 9bee5ef..6614b72 100644
--- a/halo2_proofs/src/dst.rs
+++ b/halo2_proofs/src/dst.rs
@@ -18,6 +18,8 @@ pub enum Site<'a> {
     LookupProduct(&'a mut dyn Any),
     /// A product polynomial of the permutation argument, as `Vec<F>`.
     PermutationProduct(&'a mut dyn Any),
+    /// The factor by which what a batch has accumulated so far is multiplied.
+    Scaled(&'a dyn Any),
 }
 
 type Hook = Box<dyn FnMut(Site<'_>) -> Option<Box<dyn Any>>>;
@@ -62,6 +64,10 @@ pub(crate) fn permutation_product<F: Clone + 'static>(z: &mut [F]) {
     });
 }
 
+pub(crate) fn scaled<F: 'static>(factor: &F) {
+    call(Site::Scaled(factor));
+}
+
 /// A query for the opening provers, whose constructor is private.
 pub fn prover_query<'a, C: halo2curves::CurveAffine>(
     point: C::Scalar,
diff --git a/halo2_proofs/src/poly/ipa/msm.rs b/halo2_proofs/src/poly/ipa/msm.rs
index 0f5b0e9..76797b2 100644
--- a/halo2_proofs/src/poly/ipa/msm.rs
+++ b/halo2_proofs/src/poly/ipa/msm.rs
@@ -121,6 +121,10 @@ impl<'a, C: CurveAffine> MSM<C> for MSMIPA<'a, C> {
     }
 
     fn scale(&mut self, factor: C::Scalar) {
+        #[cfg(dst)]
+        if self.g_scalars.is_some() {
+            crate::dst::scaled(&factor);
+        }
         if let Some(g_scalars) = &mut self.g_scalars {
             for g_scalar in g_scalars {
                 *g_scalar *= &factor;
diff --git a/halo2_proofs/src/poly/kzg/msm.rs b/halo2_proofs/src/poly/kzg/msm.rs
index 6920989..6c00ff9 100644
--- a/halo2_proofs/src/poly/kzg/msm.rs
+++ b/halo2_proofs/src/poly/kzg/msm.rs
@@ -138,6 +138,10 @@ impl<'a, E: MultiMillerLoop + Debug> DualMSM<'a, E> {
 
     /// Scale all scalars in the MSM by some scaling factor
     pub fn scale(&mut self, e: E::Scalar) {
+        #[cfg(dst)]
+        if !self.left.bases.is_empty() {
+            crate::dst::scaled(&e);
+        }
         self.left.scale(e);
         self.right.scale(e);
     }
-- 
2.43.0


From 6e348d7d06065e08ee2cae71f955fe072f138a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:00 +0000
Subject: [PATCH 15/22] fix: derive the factor between batch members from the
 members

---
 halo2_proofs/src/poly/ipa/msm.rs      | 34 ++++++++++++++++++++++++++-
 halo2_proofs/src/poly/ipa/strategy.rs | 16 ++++++++-----
 halo2_proofs/src/poly/kzg/msm.rs      | 31 +++++++++++++++++++++++-
 halo2_proofs/src/poly/kzg/strategy.rs | 19 ++++++++-------
 4 files changed, 83 insertions(+), 17 deletions(-)

diff --git a/halo2_proofs/src/poly/ipa/msm.rs b/halo2_proofs/src/poly/ipa/msm.rs
index 76797b2..218bb8e 100644
--- a/halo2_proofs/src/poly/ipa/msm.rs
+++ b/halo2_proofs/src/poly/ipa/msm.rs
@@ -6,8 +6,10 @@ use crate::poly::{
     ipa::commitment::ParamsVerifierIPA,
 };
 use crate::{vec, Vec};
-use ff::Field;
+use blake2b_simd::{Params as Blake2bParams, State as Blake2bState};
+use ff::{Field, PrimeField};
 use group::Group;
+use halo2curves::FieldExt;
 
 /// A multiscalar multiplication in the polynomial commitment scheme
 #[derive(Debug, Clone)]
@@ -38,6 +40,36 @@ impl<'a, C: CurveAffine> MSMIPA<'a, C> {
         }
     }
 
+    /// Absorbs all terms into the given hash state.
+    fn hash_into(&self, state: &mut Blake2bState) {
+        let g_scalars = self.g_scalars.as_deref().unwrap_or(&[]);
+        let w_scalar: Vec<_> = self.w_scalar.into_iter().collect();
+        let u_scalar: Vec<_> = self.u_scalar.into_iter().collect();
+        for scalars in [g_scalars, &w_scalar, &u_scalar] {
+            state.update(&(scalars.len() as u64).to_le_bytes());
+            for scalar in scalars {
+                state.update(scalar.to_repr().as_ref());
+            }
+        }
+        state.update(&(self.other.len() as u64).to_le_bytes());
+        for (x, (scalar, y)) in self.other.iter() {
+            state.update(x.to_repr().as_ref());
+            state.update(y.to_repr().as_ref());
+            state.update(scalar.to_repr().as_ref());
+        }
+    }
+
+    /// Derives a factor that is bound to all terms of this multiexp and of `other`.
+    pub(crate) fn batch_factor(&self, other: &Self) -> C::Scalar {
+        let mut state = Blake2bParams::new()
+            .hash_length(64)
+            .personal(b"Halo2-Batch-IPA")
+            .to_state();
+        self.hash_into(&mut state);
+        other.hash_into(&mut state);
+        C::Scalar::from_bytes_wide(state.finalize().as_array())
+    }
+
     /// Add another multiexp into this one
     pub fn add_msm(&mut self, other: &Self) {
         for (x, (scalar, y)) in other.other.iter() {
diff --git a/halo2_proofs/src/poly/ipa/strategy.rs b/halo2_proofs/src/poly/ipa/strategy.rs
index 6e3f96c..4dedc9f 100644
--- a/halo2_proofs/src/poly/ipa/strategy.rs
+++ b/halo2_proofs/src/poly/ipa/strategy.rs
@@ -96,15 +96,19 @@ impl<'params, C: CurveAffine>
     }
 
     fn process(
-        mut self,
+        self,
         f: impl FnOnce(MSMIPA<'params, C>) -> Result<GuardIPA<'params, C>, Error>,
     ) -> Result<Self::Output, Error> {
-        self.msm.scale(C::Scalar::from(42));
-        let guard = f(self.msm)?;
+        let mut msm = self.msm;
+
+        // The factor between the members of a batch must not be known before all of them
+        // are fixed, or else the errors of invalid members could be made to cancel out.
+        let member = f(MSMIPA::new(msm.params))?.use_challenges();
+        let factor = msm.batch_factor(&member);
+        msm.scale(factor);
+        msm.add_msm(&member);
 
-        Ok(Self {
-            msm: guard.use_challenges(),
-        })
+        Ok(Self { msm })
     }
 
     /// Finalizes the batch and checks its validity.
diff --git a/halo2_proofs/src/poly/kzg/msm.rs b/halo2_proofs/src/poly/kzg/msm.rs
index 6c00ff9..1bd34de 100644
--- a/halo2_proofs/src/poly/kzg/msm.rs
+++ b/halo2_proofs/src/poly/kzg/msm.rs
@@ -6,8 +6,11 @@ use crate::{
     poly::commitment::MSM,
 };
 use crate::{vec, Vec};
-use group::{Curve, Group};
+use blake2b_simd::{Params as Blake2bParams, State as Blake2bState};
+use ff::PrimeField;
+use group::{Curve, Group, GroupEncoding};
 use halo2curves::pairing::{Engine, MillerLoopResult, MultiMillerLoop};
+use halo2curves::FieldExt;
 
 /// A multiscalar multiplication in the polynomial commitment scheme
 #[derive(Clone, Default, Debug)]
@@ -38,6 +41,20 @@ impl<E: Engine> MSMKZG<E> {
     }
 }
 
+impl<E: Engine + Debug> MSMKZG<E> {
+    /// Absorbs all terms into the given hash state.
+    fn hash_into(&self, state: &mut Blake2bState) {
+        use group::prime::PrimeCurveAffine;
+        let mut bases = vec![E::G1Affine::identity(); self.bases.len()];
+        E::G1::batch_normalize(&self.bases, &mut bases);
+        state.update(&(bases.len() as u64).to_le_bytes());
+        for (scalar, base) in self.scalars.iter().zip(bases.iter()) {
+            state.update(scalar.to_repr().as_ref());
+            state.update(base.to_bytes().as_ref());
+        }
+    }
+}
+
 impl<E: Engine + Debug> MSM<E::G1Affine> for MSMKZG<E> {
     fn append_term(&mut self, scalar: E::Scalar, point: E::G1) {
         self.scalars.push(scalar);
@@ -152,6 +169,18 @@ impl<'a, E: MultiMillerLoop + Debug> DualMSM<'a, E> {
         self.right.add_msm(&other.right);
     }
 
+    /// Derives a factor that is bound to all terms of this accumulator and of `other`.
+    pub(crate) fn batch_factor(&self, other: &Self) -> E::Scalar {
+        let mut state = Blake2bParams::new()
+            .hash_length(64)
+            .personal(b"Halo2-Batch-KZG")
+            .to_state();
+        for msm in [&self.left, &self.right, &other.left, &other.right] {
+            msm.hash_into(&mut state);
+        }
+        E::Scalar::from_bytes_wide(state.finalize().as_array())
+    }
+
     /// Performs final pairing check with given verifier params and two channel linear combination
     pub fn check(self) -> bool {
         let s_g2_prepared = E::G2Prepared::from(self.params.s_g2);
diff --git a/halo2_proofs/src/poly/kzg/strategy.rs b/halo2_proofs/src/poly/kzg/strategy.rs
index b169332..6ea5412 100644
--- a/halo2_proofs/src/poly/kzg/strategy.rs
+++ b/halo2_proofs/src/poly/kzg/strategy.rs
@@ -101,17 +101,18 @@ where
     }
 
     fn process(
-        mut self,
+        self,
         f: impl FnOnce(V::MSMAccumulator) -> Result<V::Guard, Error>,
     ) -> Result<Self::Output, Error> {
-        self.msm_accumulator
-            .scale(E::Scalar::random(crate::get_rng()));
-
-        // Guard is updated with new msm contributions
-        let guard = f(self.msm_accumulator)?;
-        Ok(Self {
-            msm_accumulator: guard.msm_accumulator,
-        })
+        let mut msm_accumulator = self.msm_accumulator;
+
+        // The factor between the members of a batch must not be known before all of them
+        // are fixed, or else the errors of invalid members could be made to cancel out.
+        let member = f(DualMSM::new(msm_accumulator.params))?.msm_accumulator;
+        let factor = msm_accumulator.batch_factor(&member);
+        msm_accumulator.scale(factor);
+        msm_accumulator.add_msm(member);
+        Ok(Self { msm_accumulator })
     }
 
     fn finalize(self) -> bool {
-- 
2.43.0


From 6fa74c4414acb8790ac80ce22642e61d9b7ae028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:23 +0000
Subject: [PATCH 16/22] fix: report an out-of-range extension field coordinate
 instead of panicking

---
 halo2curves/src/bn256/fq2.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/halo2curves/src/bn256/fq2.rs b/halo2curves/src/bn256/fq2.rs
index 56a5674..033851f 100644
--- a/halo2curves/src/bn256/fq2.rs
+++ b/halo2curves/src/bn256/fq2.rs
@@ -133,13 +133,7 @@ impl Fq2 {
     pub fn from_bytes(bytes: &[u8; 64]) -> CtOption<Fq2> {
         let c0 = Fq::from_bytes(bytes[0..32].try_into().unwrap());
         let c1 = Fq::from_bytes(bytes[32..64].try_into().unwrap());
-        CtOption::new(
-            Fq2 {
-                c0: c0.unwrap(),
-                c1: c1.unwrap(),
-            },
-            c0.is_some() & c1.is_some(),
-        )
+        c0.and_then(|c0| c1.map(|c1| Fq2 { c0, c1 }))
     }
 
     /// Converts an element of `Fq` into a byte representation in
@@ -551,7 +545,7 @@ impl ff::PrimeField for Fq2 {
         let c0 = Fq::from_bytes(&repr.0[..32].try_into().unwrap());
         let c1 = Fq::from_bytes(&repr.0[32..].try_into().unwrap());
         // Disallow overflow representation
-        CtOption::new(Fq2::new(c0.unwrap(), c1.unwrap()), Choice::from(1))
+        c0.and_then(|c0| c1.map(|c1| Fq2::new(c0, c1)))
     }
 
     fn to_repr(&self) -> Self::Repr {
-- 
2.43.0


From 1b9d0d011e7496d78a79d2445e6c4ca7b369c2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:23 +0000
Subject: [PATCH 17/22] fix: check the size of stored parameters before
 believing it

---
 halo2_proofs/src/poly/ipa/commitment.rs |  3 +++
 halo2_proofs/src/poly/kzg/commitment.rs | 14 ++++++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/halo2_proofs/src/poly/ipa/commitment.rs b/halo2_proofs/src/poly/ipa/commitment.rs
index 651b49c..6464615 100644
--- a/halo2_proofs/src/poly/ipa/commitment.rs
+++ b/halo2_proofs/src/poly/ipa/commitment.rs
@@ -135,6 +135,9 @@ impl<'params, C: CurveAffine> Params<'params, C> for ParamsIPA<C> {
         let mut k = [0u8; 4];
         reader.read_exact(&mut k[..])?;
         let k = u32::from_le_bytes(k);
+        if k >= 32 {
+            return Err("k is too large");
+        }
 
         let n: u64 = 1 << k;
 
diff --git a/halo2_proofs/src/poly/kzg/commitment.rs b/halo2_proofs/src/poly/kzg/commitment.rs
index ce6642b..c2b3094 100644
--- a/halo2_proofs/src/poly/kzg/commitment.rs
+++ b/halo2_proofs/src/poly/kzg/commitment.rs
@@ -178,6 +178,9 @@ impl<E: Engine + Debug> ParamsKZG<E> {
         let mut k = [0u8; 4];
         reader.read_exact(&mut k[..])?;
         let k = u32::from_le_bytes(k);
+        if k > E::Scalar::S {
+            return Err("k is too large");
+        }
         let n = 1 << k;
 
         let (g, g_lagrange) = match format {
@@ -185,10 +188,13 @@ impl<E: Engine + Debug> ParamsKZG<E> {
                 use group::GroupEncoding;
                 let load_points_from_file_parallelly =
                     |reader: &mut R| -> io::Result<Vec<Option<E::G1Affine>>> {
-                        let mut points_compressed =
-                            vec![<<E as Engine>::G1Affine as GroupEncoding>::Repr::default(); n];
-                        for points_compressed in points_compressed.iter_mut() {
-                            reader.read_exact((*points_compressed).as_mut())?;
+                        // `n` is not to be trusted before that many points were read.
+                        let mut points_compressed = vec![];
+                        for _ in 0..n {
+                            let mut point =
+                                <<E as Engine>::G1Affine as GroupEncoding>::Repr::default();
+                            reader.read_exact(point.as_mut())?;
+                            points_compressed.push(point);
                         }
 
                         let mut points = vec![Option::<E::G1Affine>::None; n];
-- 
2.43.0


From 77c8ddaaa3541f405520174277cb60dcb7c5b9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:23 +0000
Subject: [PATCH 18/22] fix: reject a verifying key whose extended domain does
 not exist

---
 halo2_proofs/src/plonk.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/halo2_proofs/src/plonk.rs b/halo2_proofs/src/plonk.rs
index aa170f0..2207cd0 100644
--- a/halo2_proofs/src/plonk.rs
+++ b/halo2_proofs/src/plonk.rs
@@ -104,10 +104,15 @@ where
         let mut k = [0u8; 4];
         reader.read_exact(&mut k)?;
         let k = u32::from_be_bytes(k);
-        if k > C::Scalar::S {
+        let mut cs = ConstraintSystem::default();
+        ConcreteCircuit::configure(&mut cs);
+        // The extended domain has to exist as well.
+        let quotient_poly_degree = cs.degree() as u64 - 1;
+        let extension = quotient_poly_degree.next_power_of_two().trailing_zeros();
+        if k > C::Scalar::S || k + extension > C::Scalar::S {
             return Err("k is too large");
         }
-        let (domain, cs, _) = keygen::create_domain::<C, ConcreteCircuit>(k);
+        let domain = EvaluationDomain::new(cs.degree() as u32, k);
         let mut num_fixed_columns = [0u8; 4];
         reader.read_exact(&mut num_fixed_columns)?;
         let num_fixed_columns = u32::from_be_bytes(num_fixed_columns);
-- 
2.43.0


From 5058ee7a0cd4b8598063c63644416a38d2cb5192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:55 +0000
Subject: [PATCH 19/22] Hooks for simulating a deviating prover: values and
 encodings in the curve and Sinsemilla gadgets (cfg dst)

---
 halo2_gadgets/src/dst.rs                      | 118 ++++++++++++++++++
 halo2_gadgets/src/ecc/chip/add.rs             |   5 +
 halo2_gadgets/src/ecc/chip/add_incomplete.rs  |   2 +
 halo2_gadgets/src/ecc/chip/mul.rs             |  14 +++
 halo2_gadgets/src/ecc/chip/mul/incomplete.rs  |  18 +++
 halo2_gadgets/src/ecc/chip/mul_fixed.rs       |   4 +
 halo2_gadgets/src/lib.rs                      |   2 +
 .../src/sinsemilla/chip/hash_to_point.rs      |   8 ++
 halo2_gadgets/src/utilities.rs                |  10 ++
 9 files changed, 181 insertions(+)
 create mode 100644 halo2_gadgets/src/dst.rs

diff --git a/halo2_gadgets/src/dst.rs b/halo2_gadgets/src/dst.rs
new file mode 100644
index 0000000..c98a010
--- /dev/null
+++ b/halo2_gadgets/src/dst.rs
@@ -0,0 +1,118 @@
+//! Seams for simulating a deviating prover (`--cfg dst` only).
+//!
+//! While the other encodings are switched on, integers derived from a field element are
+//! those of its other encoding, the one that exceeds the modulus, wherever there is one.
+//!
+//! Lies replace intermediate values of a witness generator, which then goes on from them.
+
+extern crate std;
+
+use crate::Vec;
+use core::cell::{Cell, RefCell};
+use core::ops::Range;
+use core::sync::atomic::{AtomicBool, Ordering};
+use halo2_proofs::{circuit::Value, plonk::Assigned};
+use halo2curves::group::ff::PrimeFieldBits;
+use halo2curves::pasta::pallas;
+
+static OTHER: AtomicBool = AtomicBool::new(false);
+
+/// A value in place of the honest one.
+#[derive(Clone, Debug)]
+pub enum Lie {
+    /// The honest value and something.
+    Plus(pallas::Base),
+    /// The negated value.
+    Minus,
+    /// Something else.
+    Be(pallas::Base),
+}
+
+std::thread_local! {
+    static LIES: RefCell<Vec<(usize, Lie)>> = RefCell::new(Vec::new());
+    static COUNT: Cell<usize> = Cell::new(0);
+}
+
+/// Plans lies by the number of the value; returns how many values have gone by since the
+/// last call.
+pub fn plan_lies(lies: Vec<(usize, Lie)>) -> usize {
+    LIES.with(|l| *l.borrow_mut() = lies);
+    COUNT.with(|c| c.replace(0))
+}
+
+pub(crate) fn lie(v: Value<Assigned<pallas::Base>>) -> Value<Assigned<pallas::Base>> {
+    let n = COUNT.with(|c| c.replace(c.get() + 1));
+    LIES.with(|l| {
+        l.borrow()
+            .iter()
+            .filter(|(i, _)| *i == n)
+            .fold(v, |v, (_, lie)| {
+                v.map(|v| match lie {
+                    Lie::Plus(d) => v + Assigned::from(*d),
+                    Lie::Minus => -v,
+                    Lie::Be(x) => Assigned::from(*x),
+                })
+            })
+    })
+}
+
+/// Switches the other encodings on or off.
+pub fn other_encodings(on: bool) {
+    OTHER.store(on, Ordering::SeqCst)
+}
+
+/// Whether the other encodings are in use.
+pub fn other() -> bool {
+    OTHER.load(Ordering::SeqCst)
+}
+
+/// The bits of `x` plus the modulus, if that fits.
+fn bits<F: PrimeFieldBits>(x: &F) -> Option<Vec<bool>> {
+    if !other() {
+        return None;
+    }
+    let n = F::NUM_BITS as usize;
+    let mut carry = true;
+    let m = (-F::one()).to_le_bits();
+    let sum: Vec<bool> = x
+        .to_le_bits()
+        .iter()
+        .by_vals()
+        .zip(m.iter().by_vals())
+        .map(|(a, b)| {
+            let s = a as u8 + b as u8 + carry as u8;
+            carry = s > 1;
+            s & 1 == 1
+        })
+        .collect();
+    if carry || sum[n..].iter().any(|b| *b) {
+        None
+    } else {
+        Some(sum)
+    }
+}
+
+pub(crate) fn bitrange_subset<F: PrimeFieldBits>(x: &F, range: &Range<usize>) -> Option<F> {
+    bits(x).map(|b| {
+        b[range.clone()]
+            .iter()
+            .rev()
+            .fold(F::zero(), |acc, bit| acc.double() + F::from(*bit as u64))
+    })
+}
+
+pub(crate) fn decompose_word<F: PrimeFieldBits>(
+    x: &F,
+    word_bits: usize,
+    window_bits: usize,
+) -> Option<Vec<u8>> {
+    if word_bits < F::NUM_BITS as usize {
+        return None;
+    }
+    bits(x).map(|b| {
+        b[..word_bits]
+            .chunks(window_bits)
+            .map(|c| c.iter().rev().fold(0, |acc, b| (acc << 1) + (*b as u8)))
+            .collect()
+    })
+}
diff --git a/halo2_gadgets/src/ecc/chip/add.rs b/halo2_gadgets/src/ecc/chip/add.rs
index 4b65829..aa3a622 100644
--- a/halo2_gadgets/src/ecc/chip/add.rs
+++ b/halo2_gadgets/src/ecc/chip/add.rs
@@ -278,6 +278,8 @@ impl Config {
                         }
                     }
                 });
+        #[cfg(dst)]
+        let lambda = crate::dst::lie(lambda);
         region.assign_advice(|| "λ", self.lambda, offset, || lambda)?;
 
         // Calculate (x_r, y_r)
@@ -307,6 +309,9 @@ impl Config {
                     }
                 });
 
+        #[cfg(dst)]
+        let r = crate::dst::lie(r.map(|r| r.0)).zip(crate::dst::lie(r.map(|r| r.1)));
+
         // Assign x_r
         let x_r = r.map(|r| r.0);
         let x_r_cell = region.assign_advice(|| "x_r", self.x_qr, offset + 1, || x_r)?;
diff --git a/halo2_gadgets/src/ecc/chip/add_incomplete.rs b/halo2_gadgets/src/ecc/chip/add_incomplete.rs
index 6034fde..34b9224 100644
--- a/halo2_gadgets/src/ecc/chip/add_incomplete.rs
+++ b/halo2_gadgets/src/ecc/chip/add_incomplete.rs
@@ -130,6 +130,8 @@ impl Config {
             });
 
         // Assign the sum to `x_qr`, `y_qr` columns in the next row
+        #[cfg(dst)]
+        let r = crate::dst::lie(r.map(|r| r.0)).zip(crate::dst::lie(r.map(|r| r.1)));
         let x_r = r.map(|r| r.0);
         let x_r_var = region.assign_advice(|| "x_r", self.x_qr, offset + 1, || x_r)?;
 
diff --git a/halo2_gadgets/src/ecc/chip/mul.rs b/halo2_gadgets/src/ecc/chip/mul.rs
index 9f2abcd..50c9867 100644
--- a/halo2_gadgets/src/ecc/chip/mul.rs
+++ b/halo2_gadgets/src/ecc/chip/mul.rs
@@ -438,6 +438,20 @@ fn decompose_for_scalar_mul(scalar: Value<&pallas::Base>) -> Vec<Value<bool>> {
         let t_q = U256::from_little_endian(&T_Q.to_le_bytes());
         let k = scalar + t_q;
 
+        #[cfg(dst)]
+        let k = if crate::dst::other() {
+            let p = U256::from_little_endian(&(-pallas::Base::one()).to_repr()) + 1u64;
+            if ((k + p) >> 255).is_zero() {
+                k + p
+            } else if k >= p {
+                k - p
+            } else {
+                k
+            }
+        } else {
+            k
+        };
+
         // Little-endian bit representation of `k`.
         let bitstring = {
             let mut le_bytes = [0u8; 32];
diff --git a/halo2_gadgets/src/ecc/chip/mul/incomplete.rs b/halo2_gadgets/src/ecc/chip/mul/incomplete.rs
index 9d99759..2208712 100644
--- a/halo2_gadgets/src/ecc/chip/mul/incomplete.rs
+++ b/halo2_gadgets/src/ecc/chip/mul/incomplete.rs
@@ -293,14 +293,27 @@ impl<const NUM_BITS: usize> Config<NUM_BITS> {
         // Initialise vector to store all interstitial `z` running sum values.
         let mut zs: Vec<Z<pallas::Base>> = Vec::with_capacity(bits.len());
 
+        #[cfg(dst)]
+        let (mut x_p, mut y_p) = (x_p, y_p);
+
         // Incomplete addition
         for (row, k) in bits.iter().enumerate() {
+            #[cfg(dst)]
+            let odd = crate::dst::lie(Value::known(halo2_proofs::plonk::Assigned::Zero));
+            #[cfg(dst)]
+            {
+                x_p = crate::dst::lie(x_p);
+                y_p = crate::dst::lie(y_p);
+                y_a = crate::dst::lie(y_a);
+            }
             // z_{i} = 2 * z_{i+1} + k_i
             // https://p.z.cash/halo2-0.1:ecc-var-mul-witness-scalar?partial
             let z_val = z
                 .value()
                 .zip(k.as_ref())
                 .map(|(z_val, k)| pallas::Base::from(2) * z_val + pallas::Base::from(*k as u64));
+            #[cfg(dst)]
+            let z_val = z_val + odd.map(|odd| odd.evaluate());
             z = region.assign_advice(|| "z", self.z, row + offset, || z_val)?;
             zs.push(Z(z.clone()));
 
@@ -308,10 +321,15 @@ impl<const NUM_BITS: usize> Config<NUM_BITS> {
             region.assign_advice(|| "x_p", self.double_and_add.x_p, row + offset, || x_p)?;
             region.assign_advice(|| "y_p", self.y_p, row + offset, || y_p)?;
 
+            #[cfg(dst)]
+            let extra = odd * y_p * Value::known(pallas::Base::from(2));
+
             // If the bit is set, use `y`; if the bit is not set, use `-y`
             let y_p = y_p
                 .zip(k.as_ref())
                 .map(|(y_p, k)| if !k { -y_p } else { y_p });
+            #[cfg(dst)]
+            let y_p = y_p + extra;
 
             // Compute and assign λ1⋅(x_A − x_P) = y_A − y_P
             let lambda1 = y_a
diff --git a/halo2_gadgets/src/ecc/chip/mul_fixed.rs b/halo2_gadgets/src/ecc/chip/mul_fixed.rs
index db784f6..35d918d 100644
--- a/halo2_gadgets/src/ecc/chip/mul_fixed.rs
+++ b/halo2_gadgets/src/ecc/chip/mul_fixed.rs
@@ -279,6 +279,8 @@ impl<FixedPoints: super::FixedPoints<pallas::Affine>> Config<FixedPoints> {
                 assert!(x != pallas::Base::zero());
                 x.into()
             });
+            #[cfg(dst)]
+            let x = crate::dst::lie(x);
             let x = region.assign_advice(
                 || format!("mul_b_x, window {}", w),
                 self.add_config.x_p,
@@ -291,6 +293,8 @@ impl<FixedPoints: super::FixedPoints<pallas::Affine>> Config<FixedPoints> {
                 assert!(y != pallas::Base::zero());
                 y.into()
             });
+            #[cfg(dst)]
+            let y = crate::dst::lie(y);
             let y = region.assign_advice(
                 || format!("mul_b_y, window {}", w),
                 self.add_config.y_p,
diff --git a/halo2_gadgets/src/lib.rs b/halo2_gadgets/src/lib.rs
index a04d04e..bc0e0c3 100644
--- a/halo2_gadgets/src/lib.rs
+++ b/halo2_gadgets/src/lib.rs
@@ -23,6 +23,8 @@
 #![deny(missing_docs)]
 #![deny(unsafe_code)]
 
+#[cfg(dst)]
+pub mod dst;
 pub mod ecc;
 pub mod poseidon;
 #[cfg(feature = "unstable")]
diff --git a/halo2_gadgets/src/sinsemilla/chip/hash_to_point.rs b/halo2_gadgets/src/sinsemilla/chip/hash_to_point.rs
index 1b1ab59..30685f9 100644
--- a/halo2_gadgets/src/sinsemilla/chip/hash_to_point.rs
+++ b/halo2_gadgets/src/sinsemilla/chip/hash_to_point.rs
@@ -313,6 +313,14 @@ where
         for (row, gen) in generators.iter().enumerate() {
             let x_p = gen.map(|gen| gen.0);
             let y_p = gen.map(|gen| gen.1);
+            #[cfg(dst)]
+            let (x_p, y_p) = {
+                y_a.0 = crate::dst::lie(y_a.0);
+                let lie = |v: Value<pallas::Base>| {
+                    crate::dst::lie(v.map(Assigned::from)).map(|v| v.evaluate())
+                };
+                (lie(x_p), lie(y_p))
+            };
 
             // Assign `x_p`
             region.assign_advice(|| "x_p", config.double_and_add.x_p, offset + row, || x_p)?;
diff --git a/halo2_gadgets/src/utilities.rs b/halo2_gadgets/src/utilities.rs
index 7c7ac7f..5f9a8ed 100644
--- a/halo2_gadgets/src/utilities.rs
+++ b/halo2_gadgets/src/utilities.rs
@@ -150,6 +150,11 @@ pub fn bitrange_subset<F: PrimeFieldBits>(field_elem: &F, bitrange: Range<usize>
     // field_elem.to_le_bits() returns canonical bitstrings.
     assert!(bitrange.end <= F::NUM_BITS as usize);
 
+    #[cfg(dst)]
+    if let Some(x) = crate::dst::bitrange_subset(field_elem, &bitrange) {
+        return x;
+    }
+
     field_elem
         .to_le_bits()
         .iter()
@@ -189,6 +194,11 @@ pub fn decompose_word<F: PrimeFieldBits>(
 ) -> Vec<u8> {
     assert!(window_num_bits <= 8);
 
+    #[cfg(dst)]
+    if let Some(words) = crate::dst::decompose_word(word, word_num_bits, window_num_bits) {
+        return words;
+    }
+
     // Pad bits to multiple of window_num_bits
     let padding = (window_num_bits - (word_num_bits % window_num_bits)) % window_num_bits;
     let bits: Vec<bool> = word
-- 
2.43.0


From 3cd4bf991e9d83f38a1ea77da15df5a1cd3f7990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:17 +0000
Subject: [PATCH 20/22] Hooks for simulating a deviating prover: longer words
 (cfg dst)

---
 halo2_gadgets/src/dst.rs                      | 22 +++++++++++++++----
 halo2_gadgets/src/ecc/chip/mul/incomplete.rs  |  5 +++--
 .../src/sinsemilla/chip/hash_to_point.rs      |  4 +++-
 3 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/halo2_gadgets/src/dst.rs b/halo2_gadgets/src/dst.rs
index c98a010..dda9a43 100644
--- a/halo2_gadgets/src/dst.rs
+++ b/halo2_gadgets/src/dst.rs
@@ -1,7 +1,8 @@
 //! Seams for simulating a deviating prover (`--cfg dst` only).
 //!
 //! While the other encodings are switched on, integers derived from a field element are
-//! those of its other encoding, the one that exceeds the modulus, wherever there is one.
+//! those of its other encoding, the one that exceeds the modulus, wherever there is one,
+//! and words keep the bits that fit into their windows, even those beyond the word.
 //!
 //! Lies replace intermediate values of a witness generator, which then goes on from them.
 
@@ -40,6 +41,13 @@ pub fn plan_lies(lies: Vec<(usize, Lie)>) -> usize {
     COUNT.with(|c| c.replace(0))
 }
 
+/// Whether values are being assigned, not just counted.
+pub(crate) fn live<T>(v: &Value<T>) -> bool {
+    let mut known = false;
+    v.as_ref().map(|_| known = true);
+    known
+}
+
 pub(crate) fn lie(v: Value<Assigned<pallas::Base>>) -> Value<Assigned<pallas::Base>> {
     let n = COUNT.with(|c| c.replace(c.get() + 1));
     LIES.with(|l| {
@@ -106,11 +114,17 @@ pub(crate) fn decompose_word<F: PrimeFieldBits>(
     word_bits: usize,
     window_bits: usize,
 ) -> Option<Vec<u8>> {
-    if word_bits < F::NUM_BITS as usize {
+    if !other() {
         return None;
     }
-    bits(x).map(|b| {
-        b[..word_bits]
+    let b: Option<Vec<bool>> = if word_bits < F::NUM_BITS as usize {
+        Some(x.to_le_bits().iter().by_vals().collect())
+    } else {
+        bits(x)
+    };
+    let whole = (word_bits + window_bits - 1) / window_bits * window_bits;
+    b.map(|b| {
+        b[..whole.min(b.len())]
             .chunks(window_bits)
             .map(|c| c.iter().rev().fold(0, |acc, b| (acc << 1) + (*b as u8)))
             .collect()
diff --git a/halo2_gadgets/src/ecc/chip/mul/incomplete.rs b/halo2_gadgets/src/ecc/chip/mul/incomplete.rs
index 2208712..ad58038 100644
--- a/halo2_gadgets/src/ecc/chip/mul/incomplete.rs
+++ b/halo2_gadgets/src/ecc/chip/mul/incomplete.rs
@@ -299,9 +299,10 @@ impl<const NUM_BITS: usize> Config<NUM_BITS> {
         // Incomplete addition
         for (row, k) in bits.iter().enumerate() {
             #[cfg(dst)]
-            let odd = crate::dst::lie(Value::known(halo2_proofs::plonk::Assigned::Zero));
+            let mut odd = Value::known(halo2_proofs::plonk::Assigned::Zero);
             #[cfg(dst)]
-            {
+            if crate::dst::live(&y_a) {
+                odd = crate::dst::lie(odd);
                 x_p = crate::dst::lie(x_p);
                 y_p = crate::dst::lie(y_p);
                 y_a = crate::dst::lie(y_a);
diff --git a/halo2_gadgets/src/sinsemilla/chip/hash_to_point.rs b/halo2_gadgets/src/sinsemilla/chip/hash_to_point.rs
index 30685f9..f6305ac 100644
--- a/halo2_gadgets/src/sinsemilla/chip/hash_to_point.rs
+++ b/halo2_gadgets/src/sinsemilla/chip/hash_to_point.rs
@@ -314,7 +314,9 @@ where
             let x_p = gen.map(|gen| gen.0);
             let y_p = gen.map(|gen| gen.1);
             #[cfg(dst)]
-            let (x_p, y_p) = {
+            let (x_p, y_p) = if !crate::dst::live(&x_a.value()) {
+                (x_p, y_p)
+            } else {
                 y_a.0 = crate::dst::lie(y_a.0);
                 let lie = |v: Value<pallas::Base>| {
                     crate::dst::lie(v.map(Assigned::from)).map(|v| v.evaluate())
-- 
2.43.0


From 1c4d105d0a15a2d23a3cc8e91b5f3780e04fa1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:07 +0000
Subject: [PATCH 21/22] fix: tie the base of a variable-base multiplication to
 the point it is given

The double-and-add rows repeat the base without a copy of it, so a prover could
use another point there and have any product accepted.
---
 halo2_gadgets/src/ecc/chip/mul/incomplete.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/halo2_gadgets/src/ecc/chip/mul/incomplete.rs b/halo2_gadgets/src/ecc/chip/mul/incomplete.rs
index ad58038..a0e497d 100644
--- a/halo2_gadgets/src/ecc/chip/mul/incomplete.rs
+++ b/halo2_gadgets/src/ecc/chip/mul/incomplete.rs
@@ -318,9 +318,17 @@ impl<const NUM_BITS: usize> Config<NUM_BITS> {
             z = region.assign_advice(|| "z", self.z, row + offset, || z_val)?;
             zs.push(Z(z.clone()));
 
-            // Assign `x_p`, `y_p`
-            region.assign_advice(|| "x_p", self.double_and_add.x_p, row + offset, || x_p)?;
-            region.assign_advice(|| "y_p", self.y_p, row + offset, || y_p)?;
+            // Assign `x_p`, `y_p`. The first row holds a copy of the base; `q_mul_2` keeps
+            // the other rows equal to it.
+            if row == 0 {
+                base.x
+                    .copy_advice(|| "x_p", region, self.double_and_add.x_p, row + offset)?;
+                base.y
+                    .copy_advice(|| "y_p", region, self.y_p, row + offset)?;
+            } else {
+                region.assign_advice(|| "x_p", self.double_and_add.x_p, row + offset, || x_p)?;
+                region.assign_advice(|| "y_p", self.y_p, row + offset, || y_p)?;
+            }
 
             #[cfg(dst)]
             let extra = odd * y_p * Value::known(pallas::Base::from(2));
-- 
2.43.0


From f79f05c7cbf266c250774121a82f59786c0a99da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:26 +0000
Subject: [PATCH 22/22] Hooks for simulating a deviating prover: kinds of
 values (cfg dst)

---
 halo2_gadgets/src/dst.rs                      | 23 ++++++++++++-------
 halo2_gadgets/src/ecc/chip/add.rs             |  4 ++--
 halo2_gadgets/src/ecc/chip/add_incomplete.rs  |  2 +-
 halo2_gadgets/src/ecc/chip/mul/incomplete.rs  |  8 +++----
 halo2_gadgets/src/ecc/chip/mul_fixed.rs       |  4 ++--
 .../src/sinsemilla/chip/hash_to_point.rs      |  8 +++----
 6 files changed, 28 insertions(+), 21 deletions(-)

diff --git a/halo2_gadgets/src/dst.rs b/halo2_gadgets/src/dst.rs
index dda9a43..1009eb5 100644
--- a/halo2_gadgets/src/dst.rs
+++ b/halo2_gadgets/src/dst.rs
@@ -9,7 +9,7 @@
 extern crate std;
 
 use crate::Vec;
-use core::cell::{Cell, RefCell};
+use core::cell::RefCell;
 use core::ops::Range;
 use core::sync::atomic::{AtomicBool, Ordering};
 use halo2_proofs::{circuit::Value, plonk::Assigned};
@@ -31,14 +31,14 @@ pub enum Lie {
 
 std::thread_local! {
     static LIES: RefCell<Vec<(usize, Lie)>> = RefCell::new(Vec::new());
-    static COUNT: Cell<usize> = Cell::new(0);
+    static KINDS: RefCell<Vec<&'static str>> = RefCell::new(Vec::new());
 }
 
-/// Plans lies by the number of the value; returns how many values have gone by since the
-/// last call.
-pub fn plan_lies(lies: Vec<(usize, Lie)>) -> usize {
+/// Plans lies by the number of the value; returns the kinds of the values that have gone
+/// by since the last call.
+pub fn plan_lies(lies: Vec<(usize, Lie)>) -> Vec<&'static str> {
     LIES.with(|l| *l.borrow_mut() = lies);
-    COUNT.with(|c| c.replace(0))
+    KINDS.with(|k| k.replace(Vec::new()))
 }
 
 /// Whether values are being assigned, not just counted.
@@ -48,8 +48,15 @@ pub(crate) fn live<T>(v: &Value<T>) -> bool {
     known
 }
 
-pub(crate) fn lie(v: Value<Assigned<pallas::Base>>) -> Value<Assigned<pallas::Base>> {
-    let n = COUNT.with(|c| c.replace(c.get() + 1));
+pub(crate) fn lie(
+    kind: &'static str,
+    v: Value<Assigned<pallas::Base>>,
+) -> Value<Assigned<pallas::Base>> {
+    let n = KINDS.with(|k| {
+        let mut k = k.borrow_mut();
+        k.push(kind);
+        k.len() - 1
+    });
     LIES.with(|l| {
         l.borrow()
             .iter()
diff --git a/halo2_gadgets/src/ecc/chip/add.rs b/halo2_gadgets/src/ecc/chip/add.rs
index aa3a622..3923a81 100644
--- a/halo2_gadgets/src/ecc/chip/add.rs
+++ b/halo2_gadgets/src/ecc/chip/add.rs
@@ -279,7 +279,7 @@ impl Config {
                     }
                 });
         #[cfg(dst)]
-        let lambda = crate::dst::lie(lambda);
+        let lambda = crate::dst::lie("slope", lambda);
         region.assign_advice(|| "λ", self.lambda, offset, || lambda)?;
 
         // Calculate (x_r, y_r)
@@ -310,7 +310,7 @@ impl Config {
                 });
 
         #[cfg(dst)]
-        let r = crate::dst::lie(r.map(|r| r.0)).zip(crate::dst::lie(r.map(|r| r.1)));
+        let r = crate::dst::lie("x", r.map(|r| r.0)).zip(crate::dst::lie("y", r.map(|r| r.1)));
 
         // Assign x_r
         let x_r = r.map(|r| r.0);
diff --git a/halo2_gadgets/src/ecc/chip/add_incomplete.rs b/halo2_gadgets/src/ecc/chip/add_incomplete.rs
index 34b9224..6ea5aac 100644
--- a/halo2_gadgets/src/ecc/chip/add_incomplete.rs
+++ b/halo2_gadgets/src/ecc/chip/add_incomplete.rs
@@ -131,7 +131,7 @@ impl Config {
 
         // Assign the sum to `x_qr`, `y_qr` columns in the next row
         #[cfg(dst)]
-        let r = crate::dst::lie(r.map(|r| r.0)).zip(crate::dst::lie(r.map(|r| r.1)));
+        let r = crate::dst::lie("x", r.map(|r| r.0)).zip(crate::dst::lie("y", r.map(|r| r.1)));
         let x_r = r.map(|r| r.0);
         let x_r_var = region.assign_advice(|| "x_r", self.x_qr, offset + 1, || x_r)?;
 
diff --git a/halo2_gadgets/src/ecc/chip/mul/incomplete.rs b/halo2_gadgets/src/ecc/chip/mul/incomplete.rs
index a0e497d..f8d27ff 100644
--- a/halo2_gadgets/src/ecc/chip/mul/incomplete.rs
+++ b/halo2_gadgets/src/ecc/chip/mul/incomplete.rs
@@ -302,10 +302,10 @@ impl<const NUM_BITS: usize> Config<NUM_BITS> {
             let mut odd = Value::known(halo2_proofs::plonk::Assigned::Zero);
             #[cfg(dst)]
             if crate::dst::live(&y_a) {
-                odd = crate::dst::lie(odd);
-                x_p = crate::dst::lie(x_p);
-                y_p = crate::dst::lie(y_p);
-                y_a = crate::dst::lie(y_a);
+                odd = crate::dst::lie("digit", odd);
+                x_p = crate::dst::lie("base x", x_p);
+                y_p = crate::dst::lie("base y", y_p);
+                y_a = crate::dst::lie("y_a", y_a);
             }
             // z_{i} = 2 * z_{i+1} + k_i
             // https://p.z.cash/halo2-0.1:ecc-var-mul-witness-scalar?partial
diff --git a/halo2_gadgets/src/ecc/chip/mul_fixed.rs b/halo2_gadgets/src/ecc/chip/mul_fixed.rs
index 35d918d..4b5f850 100644
--- a/halo2_gadgets/src/ecc/chip/mul_fixed.rs
+++ b/halo2_gadgets/src/ecc/chip/mul_fixed.rs
@@ -280,7 +280,7 @@ impl<FixedPoints: super::FixedPoints<pallas::Affine>> Config<FixedPoints> {
                 x.into()
             });
             #[cfg(dst)]
-            let x = crate::dst::lie(x);
+            let x = crate::dst::lie("window x", x);
             let x = region.assign_advice(
                 || format!("mul_b_x, window {}", w),
                 self.add_config.x_p,
@@ -294,7 +294,7 @@ impl<FixedPoints: super::FixedPoints<pallas::Affine>> Config<FixedPoints> {
                 y.into()
             });
             #[cfg(dst)]
-            let y = crate::dst::lie(y);
+            let y = crate::dst::lie("window y", y);
             let y = region.assign_advice(
                 || format!("mul_b_y, window {}", w),
                 self.add_config.y_p,
diff --git a/halo2_gadgets/src/sinsemilla/chip/hash_to_point.rs b/halo2_gadgets/src/sinsemilla/chip/hash_to_point.rs
index f6305ac..40abee3 100644
--- a/halo2_gadgets/src/sinsemilla/chip/hash_to_point.rs
+++ b/halo2_gadgets/src/sinsemilla/chip/hash_to_point.rs
@@ -317,11 +317,11 @@ where
             let (x_p, y_p) = if !crate::dst::live(&x_a.value()) {
                 (x_p, y_p)
             } else {
-                y_a.0 = crate::dst::lie(y_a.0);
-                let lie = |v: Value<pallas::Base>| {
-                    crate::dst::lie(v.map(Assigned::from)).map(|v| v.evaluate())
+                y_a.0 = crate::dst::lie("sum y", y_a.0);
+                let lie = |kind, v: Value<pallas::Base>| {
+                    crate::dst::lie(kind, v.map(Assigned::from)).map(|v| v.evaluate())
                 };
-                (lie(x_p), lie(y_p))
+                (lie("generator x", x_p), lie("generator y", y_p))
             };
 
             // Assign `x_p`
-- 
2.43.0

