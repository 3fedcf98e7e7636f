From 77085f56ea37989d9bde90e26bfeb69ce84738fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:30 +0000
Subject: [PATCH 01/46] fix: StaticHashMap::new must terminate on keys
 congruent modulo its prime

---
 .../src/utils/static_hash_map.rs              | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/expander_compiler/src/utils/static_hash_map.rs b/expander_compiler/src/utils/static_hash_map.rs
index 6d936aa..8e4764d 100644
--- a/expander_compiler/src/utils/static_hash_map.rs
+++ b/expander_compiler/src/utils/static_hash_map.rs
@@ -4,11 +4,18 @@ pub struct StaticHashMap {
     m: u64,
     a: u64,
     b: u64,
+    c: u64,
     v: Vec<usize>,
 }
 
 const MOD: u64 = 1_000_000_007;
 
+// The multiplier is drawn again on every attempt, so that no two different keys collide forever
+// (as keys that agree modulo MOD would).
+fn reduce(x: usize, c: u64) -> u64 {
+    ((x as u64).wrapping_mul(c) >> 34) % MOD
+}
+
 impl StaticHashMap {
     pub fn new(s: &[usize]) -> Self {
         if s.len() > (MOD / 1000) as usize {
@@ -23,10 +30,11 @@ impl StaticHashMap {
             for _ in 0..10 {
                 let a = rng.next_u64() % (MOD - 1) + 1;
                 let b = rng.next_u64() % (MOD - 1) + 1;
+                let c = rng.next_u64() | 1;
                 let mut v = vec![0; m as usize];
                 let mut ok = true;
                 for (i, &x) in s.iter().enumerate() {
-                    let x = (x as u64) % MOD;
+                    let x = reduce(x, c);
                     let pos = ((x * a + b) % MOD * x % MOD) & (m - 1);
                     if v[pos as usize] != 0 {
                         ok = false;
@@ -40,7 +48,13 @@ impl StaticHashMap {
                             *x -= 1;
                         }
                     }
-                    return Self { m: m - 1, a, b, v };
+                    return Self {
+                        m: m - 1,
+                        a,
+                        b,
+                        c,
+                        v,
+                    };
                 }
             }
             if m < MOD / 250 {
@@ -50,7 +64,7 @@ impl StaticHashMap {
     }
 
     pub fn get(&self, x: usize) -> usize {
-        let x = (x as u64) % MOD;
+        let x = reduce(x, self.c);
         let pos = ((x * self.a + self.b) % MOD * x % MOD) & self.m;
         self.v[pos as usize]
     }
-- 
2.43.0


From 99204c712a7c33164188ee6a524ea054e14bddd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:20 +0000
Subject: [PATCH 02/46] fix: a circuit without constraints must not lose its
 first output to the single-layer target

---
 expander_compiler/src/layering/ir_split.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/expander_compiler/src/layering/ir_split.rs b/expander_compiler/src/layering/ir_split.rs
index 240f6d8..608d463 100644
--- a/expander_compiler/src/layering/ir_split.rs
+++ b/expander_compiler/src/layering/ir_split.rs
@@ -479,6 +479,8 @@ pub fn split_to_single_layer<C: Config>(root: &IrRootCircuit<C>) -> IrRootCircui
     ctx.compute_output_layers(0, vec![0; root.circuits[&0].num_inputs]);
     ctx.split_circuit(0, vec![0; root.circuits[&0].num_inputs], &[0]);
     let new_circuit0 = ctx.new_circuit0.take().unwrap();
+    // there is no combined constraint if the circuit has no constraints at all
+    let num_add_outputs = new_circuit0.outputs.len() - root.circuits[&0].outputs.len();
     let mut new_circuits = HashMap::new();
     new_circuits.insert(0, new_circuit0);
     for (id, cir) in ctx.new_circuits.vec().iter().enumerate().skip(1) {
@@ -487,8 +489,7 @@ pub fn split_to_single_layer<C: Config>(root: &IrRootCircuit<C>) -> IrRootCircui
     IrRootCircuit {
         circuits: new_circuits,
         num_public_inputs: root.num_public_inputs,
-        expected_num_output_zeroes: root.expected_num_output_zeroes
-            + C::ENABLE_RANDOM_COMBINATION as usize,
+        expected_num_output_zeroes: root.expected_num_output_zeroes + num_add_outputs,
     }
 }
 
-- 
2.43.0


From 5355a14e46d310614344f471268da5ef4564d8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:20 +0000
Subject: [PATCH 03/46] fix: an out-of-range to_binary is a witness error, not
 a panic of the solver

---
 expander_compiler/src/hints/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/expander_compiler/src/hints/mod.rs b/expander_compiler/src/hints/mod.rs
index 5b56752..4fb2a42 100644
--- a/expander_compiler/src/hints/mod.rs
+++ b/expander_compiler/src/hints/mod.rs
@@ -14,6 +14,8 @@ pub fn safe_impl<F: Field>(
     num_outputs: usize,
 ) -> Result<Vec<F>, Error> {
     match BuiltinHintIds::from_usize(hint_id) {
+        // the only builtin hint that depends on its input being in range
+        Some(BuiltinHintIds::ToBinary) => to_binary(inputs[0], num_outputs),
         Some(hint_id) => Ok(impl_builtin_hint(hint_id, inputs, num_outputs)),
         None => hint_caller.call(hint_id, inputs, num_outputs),
     }
-- 
2.43.0


From 86afce121dd2eacf2b79dc099dfe2cb80e3867ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:58 +0000
Subject: [PATCH 04/46] fix: marking an expression as constrained must not drop
 an earlier assertion on it

---
 expander_compiler/src/builder/basic.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/expander_compiler/src/builder/basic.rs b/expander_compiler/src/builder/basic.rs
index 2d5a2bc..c289c26 100644
--- a/expander_compiler/src/builder/basic.rs
+++ b/expander_compiler/src/builder/basic.rs
@@ -241,7 +241,8 @@ impl<'a, C: Config, IrcIn: IrConfig<Config = C>, IrcOut: IrConfig<Config = C>>
         self.constraints
             .entry(constraint_type)
             .or_default()
-            .insert(expr, ConstraintStatus::Marked);
+            .entry(expr)
+            .or_insert(ConstraintStatus::Marked);
     }
 
     fn add_input(&mut self) {
-- 
2.43.0


From edd6b3c3563a2313324f3ad6df7ddfcd299a123c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:09 +0000
Subject: [PATCH 05/46] fix: the witness program must drop unreachable
 challenges at optimisation level 1 too

---
 expander_compiler/src/compile/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expander_compiler/src/compile/mod.rs b/expander_compiler/src/compile/mod.rs
index 90debc9..4e44a12 100644
--- a/expander_compiler/src/compile/mod.rs
+++ b/expander_compiler/src/compile/mod.rs
@@ -298,6 +298,10 @@ pub fn compile_step_4<C: Config>(
             let (r, im) = r.remove_unreachable();
             (r, im)
         })
+    } else if options.opt_level >= 1 {
+        let (r, im) = r_hint_exported.remove_unreachable();
+        src_im.compose_in_place(&im);
+        r
     } else {
         r_hint_exported
     };
-- 
2.43.0


From 3afd20319945e63ebcbd528d7bb26bdb0cbf3d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:25 +0000
Subject: [PATCH 06/46] fix: meeting the multiplication fan-out limit must not
 duplicate a challenge

---
 expander_compiler/src/circuit/ir/dest/mul_fanout_limit.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/expander_compiler/src/circuit/ir/dest/mul_fanout_limit.rs b/expander_compiler/src/circuit/ir/dest/mul_fanout_limit.rs
index fce6b72..7c52169 100644
--- a/expander_compiler/src/circuit/ir/dest/mul_fanout_limit.rs
+++ b/expander_compiler/src/circuit/ir/dest/mul_fanout_limit.rs
@@ -56,9 +56,13 @@ impl<C: Config> CircuitRelaxed<C> {
 
         for (i, insn) in self.instructions.iter().enumerate() {
             match insn {
-                Instruction::ConstantLike { .. } => {
+                Instruction::ConstantLike { value } => {
                     mul_ref_cnt.push(0);
-                    max_copy_cnt.push(compute_max_copy_cnt(1));
+                    // every gate draws its own random value, so a copy would not be the same value
+                    max_copy_cnt.push(match value {
+                        Coef::Random => 0,
+                        _ => compute_max_copy_cnt(1),
+                    });
                     internal_var_insn_id.push(None);
                 }
                 Instruction::SubCircuitCall { num_outputs, .. } => {
-- 
2.43.0


From b37b452ee43aad2a3d5c95d102eb1ac4a15c976d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:41 +0000
Subject: [PATCH 07/46] fix: layered circuit validation accepted or panicked on
 out-of-range layers, offsets, public inputs and output counts

---
 expander_compiler/src/circuit/layered/mod.rs | 26 +++++++++++++++-----
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/expander_compiler/src/circuit/layered/mod.rs b/expander_compiler/src/circuit/layered/mod.rs
index 97aa798..2e05238 100644
--- a/expander_compiler/src/circuit/layered/mod.rs
+++ b/expander_compiler/src/circuit/layered/mod.rs
@@ -395,13 +395,13 @@ impl<C: Config, I: InputType> Circuit<C, I> {
                 )));
             }
             for m in seg.gate_muls.iter() {
-                if m.inputs[0].layer() >= self.layer_ids.len() {
+                if m.inputs[0].layer() >= seg.num_inputs.len() {
                     return Err(Error::InternalError(format!(
                         "segment {} mul gate ({:?}, {:?}, {}) input 0 layer out of range",
                         i, m.inputs[0], m.inputs[1], m.output
                     )));
                 }
-                if m.inputs[1].layer() >= self.layer_ids.len() {
+                if m.inputs[1].layer() >= seg.num_inputs.len() {
                     return Err(Error::InternalError(format!(
                         "segment {} mul gate ({:?}, {:?}, {}) input 1 layer out of range",
                         i, m.inputs[0], m.inputs[1], m.output
@@ -419,6 +419,7 @@ impl<C: Config, I: InputType> Circuit<C, I> {
                         i, m.inputs[0], m.inputs[1], m.output
                     )));
                 }
+                m.coef.validate(self.num_public_inputs)?;
                 if m.output >= seg.num_outputs {
                     return Err(Error::InternalError(format!(
                         "segment {} mul gate ({:?}, {:?}, {}) out of range",
@@ -427,7 +428,7 @@ impl<C: Config, I: InputType> Circuit<C, I> {
                 }
             }
             for a in seg.gate_adds.iter() {
-                if a.inputs[0].layer() >= self.layer_ids.len() {
+                if a.inputs[0].layer() >= seg.num_inputs.len() {
                     return Err(Error::InternalError(format!(
                         "segment {} add gate ({:?}, {}) input layer out of range",
                         i, a.inputs[0], a.output
@@ -439,6 +440,7 @@ impl<C: Config, I: InputType> Circuit<C, I> {
                         i, a.inputs[0], a.output
                     )));
                 }
+                a.coef.validate(self.num_public_inputs)?;
                 if a.output >= seg.num_outputs {
                     return Err(Error::InternalError(format!(
                         "segment {} add gate ({:?}, {}) out of range",
@@ -447,6 +449,7 @@ impl<C: Config, I: InputType> Circuit<C, I> {
                 }
             }
             for cs in seg.gate_consts.iter() {
+                cs.coef.validate(self.num_public_inputs)?;
                 if cs.output >= seg.num_outputs {
                     return Err(Error::InternalError(format!(
                         "segment {} const gate {} out of range",
@@ -456,7 +459,7 @@ impl<C: Config, I: InputType> Circuit<C, I> {
             }
             for cu in seg.gate_customs.iter() {
                 for input in cu.inputs.iter() {
-                    if input.layer() >= self.layer_ids.len() {
+                    if input.layer() >= seg.num_inputs.len() {
                         return Err(Error::InternalError(format!(
                             "segment {} custom gate {} input layer out of range",
                             i, cu.output
@@ -469,6 +472,7 @@ impl<C: Config, I: InputType> Circuit<C, I> {
                         )));
                     }
                 }
+                cu.coef.validate(self.num_public_inputs)?;
                 if cu.output >= seg.num_outputs {
                     return Err(Error::InternalError(format!(
                         "segment {} custom gate {} out of range",
@@ -513,7 +517,7 @@ impl<C: Config, I: InputType> Circuit<C, I> {
                                 "segment {i} subcircuit {sub_id} input offset {x} not aligned to {y}"
                             )));
                         }
-                        if x + y > z {
+                        if x > z || y > z - x {
                             return Err(Error::InternalError(format!(
                                 "segment {i} subcircuit {sub_id} input offset {x} out of range"
                             )));
@@ -525,7 +529,9 @@ impl<C: Config, I: InputType> Circuit<C, I> {
                             i, sub_id, a.output_offset, subc.num_outputs
                         )));
                     }
-                    if a.output_offset + subc.num_outputs > seg.num_outputs {
+                    if a.output_offset > seg.num_outputs
+                        || subc.num_outputs > seg.num_outputs - a.output_offset
+                    {
                         return Err(Error::InternalError(format!(
                             "segment {} subcircuit {} output offset {} out of range",
                             i, sub_id, a.output_offset
@@ -547,6 +553,14 @@ impl<C: Config, I: InputType> Circuit<C, I> {
         for l in self.layer_ids.iter() {
             layer_sizes.push(self.segments[*l].num_outputs);
         }
+        if self.num_actual_outputs > *layer_sizes.last().unwrap()
+            || self.expected_num_output_zeroes > self.num_actual_outputs
+        {
+            return Err(Error::InternalError(format!(
+                "{} outputs ({} of them expected to be zero) out of range",
+                self.num_actual_outputs, self.expected_num_output_zeroes
+            )));
+        }
         for (i, l) in self.layer_ids.iter().enumerate() {
             let cur = &self.segments[*l];
             if cur.num_inputs.len() > i + 1 {
-- 
2.43.0


From 23e126bae8ec4e6c560df8d584274bed026632c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:41 +0000
Subject: [PATCH 08/46] fix: reading a corrupted witness file could panic,
 exhaust memory or never end

---
 .../src/circuit/layered/witness.rs            | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/expander_compiler/src/circuit/layered/witness.rs b/expander_compiler/src/circuit/layered/witness.rs
index c8313af..b1319eb 100644
--- a/expander_compiler/src/circuit/layered/witness.rs
+++ b/expander_compiler/src/circuit/layered/witness.rs
@@ -54,7 +54,11 @@ fn pack_block<F: Field, SF: arith::SimdField<Scalar = F>>(
     let pack_size = SF::PACK_SIZE;
     let mut res = Vec::with_capacity(a);
     let mut res2 = Vec::with_capacity(b);
-    let s_size = (s.len() / (a + b)).min(pack_size);
+    let s_size = s
+        .len()
+        .checked_div(a + b)
+        .unwrap_or(pack_size)
+        .min(pack_size);
     for i in 0..a {
         let mut tmp = Vec::with_capacity(pack_size);
         for j in 0..s_size {
@@ -305,10 +309,15 @@ impl<C: Config> ExpSerde for Witness<C> {
                 "invalid modulus",
             ))?;
         }
-        let mut values = Vec::with_capacity(
-            num_witnesses * (num_inputs_per_witness + num_public_inputs_per_witness),
-        );
-        for _ in 0..num_witnesses * (num_inputs_per_witness + num_public_inputs_per_witness) {
+        // the sizes come from the file: do not reserve memory for values before they are read
+        let num_values = num_inputs_per_witness
+            .checked_add(num_public_inputs_per_witness)
+            .and_then(|n| n.checked_mul(num_witnesses))
+            .ok_or_else(|| {
+                std::io::Error::new(std::io::ErrorKind::InvalidData, "invalid witness size")
+            })?;
+        let mut values = Vec::new();
+        for _ in 0..num_values {
             values.push(CircuitField::<C>::deserialize_from(&mut reader)?);
         }
         let mut res = Self {
@@ -317,7 +326,7 @@ impl<C: Config> ExpSerde for Witness<C> {
             num_public_inputs_per_witness,
             values: WitnessValues::Scalar(values),
         };
-        if use_simd::<C>(num_witnesses) {
+        if use_simd::<C>(num_witnesses) && num_values != 0 {
             res.convert_to_simd();
         }
         Ok(res)
-- 
2.43.0


From 115ac7d87f8ed76fb8c7e113b2d1a979dbb6599b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:41 +0000
Subject: [PATCH 09/46] fix: do not reserve memory for an unread linear
 combination

---
 expander_compiler/src/circuit/ir/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expander_compiler/src/circuit/ir/expr.rs b/expander_compiler/src/circuit/ir/expr.rs
index 7ca0fbe..e68ea96 100644
--- a/expander_compiler/src/circuit/ir/expr.rs
+++ b/expander_compiler/src/circuit/ir/expr.rs
@@ -482,7 +482,7 @@ impl<C: Config> ExpSerde for LinComb<C> {
 
     fn deserialize_from<R: Read>(mut reader: R) -> SerdeResult<Self> {
         let len = usize::deserialize_from(&mut reader)?;
-        let mut terms = Vec::with_capacity(len);
+        let mut terms = Vec::new();
         for _ in 0..len {
             let var = usize::deserialize_from(&mut reader)?;
             terms.push(LinCombTerm {
-- 
2.43.0


From 502c139ef64fdef86d7ed8a6b4ce269943f7d6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:41 +0000
Subject: [PATCH 10/46] fix: program validation overflowed on absurd output
 counts

---
 expander_compiler/src/circuit/ir/common/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/expander_compiler/src/circuit/ir/common/mod.rs b/expander_compiler/src/circuit/ir/common/mod.rs
index 18b7f27..05ba297 100644
--- a/expander_compiler/src/circuit/ir/common/mod.rs
+++ b/expander_compiler/src/circuit/ir/common/mod.rs
@@ -115,7 +115,9 @@ impl<Irc: IrConfig> Circuit<Irc> {
                 }
             }
             insn.validate(num_public_inputs)?;
-            cur_var_max += insn.num_outputs();
+            cur_var_max = cur_var_max
+                .checked_add(insn.num_outputs())
+                .ok_or_else(|| Error::InternalError("too many variables".to_string()))?;
             if !Irc::ALLOW_DUPLICATE_SUB_CIRCUIT_INPUTS {
                 if let Some((_, inputs, _)) = insn.as_sub_circuit_call() {
                     let mut set = HashSet::new();
-- 
2.43.0


From 46aae8d4bda5fd3246e00f8709a910bf8fda571e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:41 +0000
Subject: [PATCH 11/46] fix: a program left with no variables failed to compile
 with an internal error

---
 expander_compiler/src/compile/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/expander_compiler/src/compile/mod.rs b/expander_compiler/src/compile/mod.rs
index 4e44a12..205a000 100644
--- a/expander_compiler/src/compile/mod.rs
+++ b/expander_compiler/src/compile/mod.rs
@@ -348,6 +348,11 @@ pub fn compile_with_options<C: Config, I: InputType>(
 
     print_ir_stats(&r_hint_normalized_opt);
 
+    // only constraints that do not depend on any input are left
+    if r_hint_normalized_opt.circuits[&0].get_num_variables() == 0 {
+        return Err(Error::UserError("circuit has no inputs".to_string()));
+    }
+
     let (r_hint_less, mut r_hint_exported) = r_hint_normalized_opt.remove_and_export_hints();
     r_hint_exported
         .validate()
-- 
2.43.0


From 88048d81cd053645f211c62b98e0a31f72e2767f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:27 +0000
Subject: [PATCH 12/46] fix: a hint missing from the registry is reported as an
 error of witness solving, not a panic

---
 expander_compiler/src/hints/registry.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expander_compiler/src/hints/registry.rs b/expander_compiler/src/hints/registry.rs
index d3259be..1809383 100644
--- a/expander_compiler/src/hints/registry.rs
+++ b/expander_compiler/src/hints/registry.rs
@@ -42,7 +42,7 @@ impl<F: Field> HintRegistry<F> {
             let mut outputs = vec![F::zero(); num_outputs];
             hint(args, &mut outputs).map(|_| outputs)
         } else {
-            panic!("Hint with id {id} not found");
+            Err(Error::UserError(format!("Hint with id {id} not found")))
         }
     }
 }
-- 
2.43.0


From ee061f032cfc4856a36699347ccce3b63a27a901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:57 +0000
Subject: [PATCH 13/46] fix: layouts of transposed handles whose axes are of
 length 1 or stay adjacent

---
 expander_compiler/src/zkcuda/shape.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/expander_compiler/src/zkcuda/shape.rs b/expander_compiler/src/zkcuda/shape.rs
index 46ffd1c..324afde 100644
--- a/expander_compiler/src/zkcuda/shape.rs
+++ b/expander_compiler/src/zkcuda/shape.rs
@@ -46,6 +46,21 @@ impl Entry {
             }
             Some(axes) => axes,
         };
+        if self.shape.contains(&1) {
+            // Dimensions of length 1 carry no data, so they never need to be split.
+            let kept: Vec<usize> = (0..self.shape.len())
+                .filter(|&i| self.shape[i] != 1)
+                .collect();
+            let entry = Entry {
+                shape: kept.iter().map(|&i| self.shape[i]).collect(),
+                axes: Some(
+                    axes.iter()
+                        .filter_map(|a| kept.iter().position(|k| k == a))
+                        .collect(),
+                ),
+            };
+            return entry.minimize(keep_first_dim && self.shape[axes[0]] != 1);
+        }
         let mut merge_shape = vec![false; self.shape.len()];
         for (i, (&a, &b)) in axes.iter().zip(axes.iter().skip(1)).enumerate() {
             if a + 1 == b && (!keep_first_dim || i > 0) {
@@ -327,6 +342,8 @@ impl ShapeHistory {
                 .collect::<Vec<_>>()
         };
         for e in self.entries.iter() {
+            // The initial vector is only guaranteed to be split as the minimized entries require.
+            let e = e.minimize(false);
             cur = if e.axes.as_ref().is_none() {
                 cur
             } else if cur.is_none() {
-- 
2.43.0


From 25c998af845934804d7fd9dfcc5cda27ffcc4163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:33 +0000
Subject: [PATCH 14/46] fix: hint memories of kernel calls take the layout of
 the call's instances

---
 expander_compiler/src/zkcuda/context.rs | 26 ++++++++++++-------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/expander_compiler/src/zkcuda/context.rs b/expander_compiler/src/zkcuda/context.rs
index 2040731..9dbfc2f 100644
--- a/expander_compiler/src/zkcuda/context.rs
+++ b/expander_compiler/src/zkcuda/context.rs
@@ -117,6 +117,8 @@ pub struct Context<C: Config, H: HintCaller<CircuitField<C>> = EmptyHintCaller>
     device_memories: Vec<DeviceMemory<C>>,
     kernel_calls: Vec<KernelCall>,
     proof_templates: Vec<ProofTemplate>,
+    // How the parallel instances of each kernel call are split, known once the graph is done
+    parallel_shapes: Vec<Shape>,
     hint_caller: H,
     // Pointer-identity cache for kernel_primitives.add() — avoids O(circuit_size) Hash
     kernel_ptr_cache: std::collections::HashMap<usize, usize>,
@@ -225,6 +227,7 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
             device_memories: vec![],
             kernel_calls: vec![],
             proof_templates: vec![],
+            parallel_shapes: vec![],
             hint_caller,
             state: ContextState::ComputationGraphNotDone,
             kernel_ptr_cache: std::collections::HashMap::new(),
@@ -738,6 +741,7 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
             let any_shape = any_shape.unwrap();
             let any_shape = keep_shape_until(&any_shape, kernel_call.num_parallel);
             let dim0_len = shape_vec_padded_len(&any_shape);
+            self.parallel_shapes.push(any_shape);
 
             if kernel.hint_solver().is_some() {
                 // if the kernel has a hint solver, we need to add another input
@@ -796,8 +800,11 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
         }
         self.state = ContextState::WitnessDone;
 
-        for (kernel_call, proof_template) in
-            self.kernel_calls.iter().zip(self.proof_templates.iter())
+        for ((kernel_call, proof_template), parallel_shape) in self
+            .kernel_calls
+            .iter()
+            .zip(self.proof_templates.iter())
+            .zip(self.parallel_shapes.iter())
         {
             let kernel = self.kernels.get(proof_template.kernel_id);
             if kernel.hint_solver().is_none() {
@@ -812,7 +819,6 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
                 vec![None; kernel_primitive.io_specs().len()];
             let mut output_chunk_sizes: Vec<Option<usize>> =
                 vec![None; kernel_primitive.io_specs().len()];
-            let mut any_shape = None;
             for (((input, &ib), ir_inputs), chunk_size) in kernel_call
                 .input_handles
                 .iter()
@@ -824,9 +830,6 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
                     continue;
                 }
                 let handle = ensure_handle(input.clone());
-                if any_shape.is_none() {
-                    any_shape = Some(handle.shape_history.shape());
-                }
                 let values = handle
                     .shape_history
                     .permute_vec(&self.device_memories[handle.id].values);
@@ -846,9 +849,6 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
                     continue;
                 }
                 let handle = ensure_handle(output.clone());
-                if any_shape.is_none() {
-                    any_shape = Some(handle.shape_history.shape());
-                }
                 let values = handle
                     .shape_history
                     .permute_vec(&self.device_memories[handle.id].values);
@@ -917,14 +917,12 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
                 .unwrap()
                 .id;
             // we need to assign correct shape to it
-            let any_shape = any_shape.unwrap();
-            let mut any_shape_products =
-                keep_shape_products_until(&prefix_products(&any_shape), kernel_call.num_parallel);
+            let mut hints_shape_products = prefix_products(parallel_shape);
             if kernel_call.num_parallel != hints_len {
-                any_shape_products.push(hints_len);
+                hints_shape_products.push(hints_len);
             }
             self.device_memories[hints_id].required_shape_products = merge_shape_products(
-                &any_shape_products,
+                &hints_shape_products,
                 &self.device_memories[hints_id].required_shape_products,
             );
         }
-- 
2.43.0


From 915391ec4af48795d68f95b0bb653c55fd44ac13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:11 +0000
Subject: [PATCH 15/46] fix: kernel cache keyed by address confused kernels
 placed at the same address

---
 expander_compiler/src/zkcuda/context.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/expander_compiler/src/zkcuda/context.rs b/expander_compiler/src/zkcuda/context.rs
index 9dbfc2f..adb10af 100644
--- a/expander_compiler/src/zkcuda/context.rs
+++ b/expander_compiler/src/zkcuda/context.rs
@@ -399,7 +399,13 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
         // because it recursively hashes nested generic structs.
         // Fast kernel registration: pointer-identity cache + skip clone on second call.
         let ptr = kernel as *const _ as usize;
-        let kernel_id = if let Some(&cached_id) = self.kernel_ptr_cache.get(&ptr) {
+        // The address may have been reused by another kernel since, so the hit is compared.
+        let cached_id = self
+            .kernel_ptr_cache
+            .get(&ptr)
+            .copied()
+            .filter(|&id| self.kernel_primitives.get(id) == kernel);
+        let kernel_id = if let Some(cached_id) = cached_id {
             cached_id
         } else {
             let id = self.kernel_primitives.add(kernel);
-- 
2.43.0


From c4ce8d23e174ca81b1043a5cb26b077994060875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:57 +0000
Subject: [PATCH 16/46] fix: look up the kernel of a call in the loaded
 computation graph by its template

A session that loads a computation graph used the number of the kernel
primitive to index the compiled kernels; these differ as soon as one
primitive is called with two padded shapes, or primitives are not first
called in the order of their creation.
---
 expander_compiler/src/zkcuda/context.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/expander_compiler/src/zkcuda/context.rs b/expander_compiler/src/zkcuda/context.rs
index adb10af..d103f5a 100644
--- a/expander_compiler/src/zkcuda/context.rs
+++ b/expander_compiler/src/zkcuda/context.rs
@@ -663,7 +663,7 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
             })
         };
         let mut dm_max = self.device_memories.len();
-        for kernel_call in self.kernel_calls.iter() {
+        for (call_id, kernel_call) in self.kernel_calls.iter().enumerate() {
             let pad_shapes_input = kernel_call
                 .input_handles
                 .iter()
@@ -675,9 +675,9 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
                 .map(get_pad_shape)
                 .collect::<Vec<_>>();
             let kernel_primitive = self.kernel_primitives.get(kernel_call.kernel_id);
-            let kernel = if cg_kernels.is_some() {
-                // Get kernel from loaded kernels by kernel_id
-                self.kernels.get(kernel_call.kernel_id).clone()
+            let kernel = if let Some(templates) = cg_proof_templates.as_ref() {
+                // kernel_call.kernel_id numbers the primitives, not the kernels compiled from them
+                self.kernels.get(templates[call_id].kernel_id).clone()
             } else {
                 let mut psi = Vec::new();
                 for (s, &ib) in pad_shapes_input.iter().zip(kernel_call.is_broadcast.iter()) {
-- 
2.43.0


From fa03f45b74eef2b20c4aacb44727f8fe6e821a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:15 +0000
Subject: [PATCH 17/46] fix: refuse proofs that do not cover every kernel call
 and device memory

The verifiers paired the parts of a proof with the calls of the graph by
zipping, so that a proof without its last parts was accepted, and did not
compare the lengths of the commitments with the graph's.
---
 .../src/zkcuda/proving_system/dummy.rs            |  4 ++++
 .../proving_system/expander/api_single_thread.rs  |  4 ++++
 .../proving_system/expander_local_deferred/api.rs |  4 ++++
 .../expander_parallelized/api_parallel.rs         |  4 ++++
 .../expander_pcs_defered/verify_impl.rs           |  4 ++++
 .../src/zkcuda/proving_system/traits.rs           | 15 +++++++++++++++
 6 files changed, 35 insertions(+)

diff --git a/expander_compiler/src/zkcuda/proving_system/dummy.rs b/expander_compiler/src/zkcuda/proving_system/dummy.rs
index b18beb6..2c13486 100644
--- a/expander_compiler/src/zkcuda/proving_system/dummy.rs
+++ b/expander_compiler/src/zkcuda/proving_system/dummy.rs
@@ -190,6 +190,10 @@ impl<C: Config> ProvingSystem<C> for DummyProvingSystem<C> {
         computation_graph: &ComputationGraph<C>,
         proof: &Self::Proof,
     ) -> bool {
+        if !proof.fits(computation_graph) {
+            println!("The proof does not fit the computation graph");
+            return false;
+        }
         let verified = proof
             .proofs
             .par_iter()
diff --git a/expander_compiler/src/zkcuda/proving_system/expander/api_single_thread.rs b/expander_compiler/src/zkcuda/proving_system/expander/api_single_thread.rs
index 836201a..89e55b8 100644
--- a/expander_compiler/src/zkcuda/proving_system/expander/api_single_thread.rs
+++ b/expander_compiler/src/zkcuda/proving_system/expander/api_single_thread.rs
@@ -231,6 +231,10 @@ impl<C: GKREngine, ECCConfig: Config<FieldConfig = C::FieldConfig>> ProvingSyste
         computation_graph: &ComputationGraph<ECCConfig>,
         proof: &Self::Proof,
     ) -> bool {
+        if !proof.fits(computation_graph) {
+            println!("The proof does not fit the computation graph");
+            return false;
+        }
         let verified = proof
             .proofs
             .iter()
diff --git a/expander_compiler/src/zkcuda/proving_system/expander_local_deferred/api.rs b/expander_compiler/src/zkcuda/proving_system/expander_local_deferred/api.rs
index 3ba0c40..cea6bcf 100644
--- a/expander_compiler/src/zkcuda/proving_system/expander_local_deferred/api.rs
+++ b/expander_compiler/src/zkcuda/proving_system/expander_local_deferred/api.rs
@@ -73,6 +73,10 @@ impl<C: GKREngine, ECCConfig: Config<FieldConfig = C::FieldConfig>> ProvingSyste
 
     fn verify(vs: &Self::VerifierSetup, cg: &ComputationGraph<ECCConfig>, proof: &Self::Proof) -> bool {
         use crate::zkcuda::proving_system::expander::verify_impl::verify_pcs_opening_and_aggregation_no_mpi;
+        if !proof.fits(cg) {
+            println!("The proof does not fit the computation graph");
+            return false;
+        }
         // Parallel template verification — each template is independent
         let vs_ptr = vs as *const _ as usize;
         use rayon::prelude::*;
diff --git a/expander_compiler/src/zkcuda/proving_system/expander_parallelized/api_parallel.rs b/expander_compiler/src/zkcuda/proving_system/expander_parallelized/api_parallel.rs
index 8100531..4127906 100644
--- a/expander_compiler/src/zkcuda/proving_system/expander_parallelized/api_parallel.rs
+++ b/expander_compiler/src/zkcuda/proving_system/expander_parallelized/api_parallel.rs
@@ -54,6 +54,10 @@ impl<C: GKREngine, ECCConfig: Config<FieldConfig = C::FieldConfig>> ProvingSyste
         computation_graph: &ComputationGraph<ECCConfig>,
         proof: &Self::Proof,
     ) -> bool {
+        if !proof.fits(computation_graph) {
+            println!("The proof does not fit the computation graph");
+            return false;
+        }
         let verification_timer = Timer::new("Verify all kernels", true);
         let verified = proof
             .proofs
diff --git a/expander_compiler/src/zkcuda/proving_system/expander_pcs_defered/verify_impl.rs b/expander_compiler/src/zkcuda/proving_system/expander_pcs_defered/verify_impl.rs
index b06be3d..bfa2e3a 100644
--- a/expander_compiler/src/zkcuda/proving_system/expander_pcs_defered/verify_impl.rs
+++ b/expander_compiler/src/zkcuda/proving_system/expander_pcs_defered/verify_impl.rs
@@ -150,6 +150,10 @@ where
 {
     let verification_timer = Timer::new("Total Verification", true);
     let pcs_batch_opening = proof.proofs.pop().unwrap();
+    if !proof.fits(computation_graph) {
+        println!("The proof does not fit the computation graph");
+        return false;
+    }
 
     let gkr_verification_timer = Timer::new("GKR Verification", true);
     let verified_with_pcs_claims = proof
diff --git a/expander_compiler/src/zkcuda/proving_system/traits.rs b/expander_compiler/src/zkcuda/proving_system/traits.rs
index 539a0f4..03adac7 100644
--- a/expander_compiler/src/zkcuda/proving_system/traits.rs
+++ b/expander_compiler/src/zkcuda/proving_system/traits.rs
@@ -60,6 +60,21 @@ impl<C: Config, KP: KernelWiseProvingSystem<C>> Clone for CombinedProof<C, KP> {
     }
 }
 
+impl<C: Config, KP: KernelWiseProvingSystem<C>> CombinedProof<C, KP> {
+    /// Whether there is one proof for every kernel call of the graph, and one commitment of
+    /// the right length for every device memory.
+    pub fn fits(&self, computation_graph: &ComputationGraph<C>) -> bool {
+        let lens = computation_graph.commitments_lens();
+        self.proofs.len() == computation_graph.proof_templates().len()
+            && self.commitments.len() == lens.len()
+            && self
+                .commitments
+                .iter()
+                .zip(lens)
+                .all(|(commitment, len)| commitment.vals_len() == *len)
+    }
+}
+
 pub trait ProvingSystem<C: Config> {
     type ProverSetup: Clone + Send + Sync + ExpSerde;
     type VerifierSetup: Clone + Send + Sync + ExpSerde;
-- 
2.43.0


From b1c1bb20c246443b846db4b712dbe704f3379862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:15 +0000
Subject: [PATCH 18/46] fix: the dummy verifier refuses kernels whose
 constraints do not hold

It only compared the conditions with those recorded in the proof.
---
 expander_compiler/src/zkcuda/proving_system/dummy.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expander_compiler/src/zkcuda/proving_system/dummy.rs b/expander_compiler/src/zkcuda/proving_system/dummy.rs
index 2c13486..5ce28fc 100644
--- a/expander_compiler/src/zkcuda/proving_system/dummy.rs
+++ b/expander_compiler/src/zkcuda/proving_system/dummy.rs
@@ -119,7 +119,7 @@ impl<C: Config> KernelWiseProvingSystem<C> for DummyProvingSystem<C> {
             let (_, cond) = kernel
                 .layered_circuit()
                 .eval_with_public_inputs_simd(lc_input, &[]);
-            if cond != proof.cond[i] {
+            if cond != proof.cond[i] || !cond.iter().all(|x| *x) {
                 return false;
             }
         }
-- 
2.43.0


From 40197881d171dcb0ae4262fd02eddae7e2e2a0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:25 +0000
Subject: [PATCH 19/46] fix: the batch prover's openings are verified

With more than one instance of a kernel the verifier skipped both the
openings of the commitments and the claims about them, so that a proof
beside any commitments was accepted. The prover now opens at the points
the parallel prover uses, and the verifier checks them.
---
 .../expander_local_deferred/api.rs            | 37 +++++--------------
 1 file changed, 9 insertions(+), 28 deletions(-)

diff --git a/expander_compiler/src/zkcuda/proving_system/expander_local_deferred/api.rs b/expander_compiler/src/zkcuda/proving_system/expander_local_deferred/api.rs
index cea6bcf..4524f0f 100644
--- a/expander_compiler/src/zkcuda/proving_system/expander_local_deferred/api.rs
+++ b/expander_compiler/src/zkcuda/proving_system/expander_local_deferred/api.rs
@@ -3,7 +3,7 @@ use std::io::Cursor;
 use std::sync::Mutex;
 use arith::Field;
 use gkr::{gkr_prove_batch, gkr_verify};
-use gkr_engine::{ExpanderPCS, FieldEngine, GKREngine, MPIConfig, Transcript};
+use gkr_engine::{FieldEngine, GKREngine, MPIConfig, Transcript};
 use crate::{frontend::{Config, SIMDField}, utils::misc::next_power_of_two,
     zkcuda::{context::ComputationGraph, proving_system::{common::check_inputs,
         expander::{prove_impl::{get_local_vals, prepare_expander_circuit, prepare_inputs_with_local_vals},
@@ -73,6 +73,7 @@ impl<C: GKREngine, ECCConfig: Config<FieldConfig = C::FieldConfig>> ProvingSyste
 
     fn verify(vs: &Self::VerifierSetup, cg: &ComputationGraph<ECCConfig>, proof: &Self::Proof) -> bool {
         use crate::zkcuda::proving_system::expander::verify_impl::verify_pcs_opening_and_aggregation_no_mpi;
+        use crate::zkcuda::proving_system::expander_parallelized::verify_impl::verify_pcs_opening_and_aggregation_mpi;
         if !proof.fits(cg) {
             println!("The proof does not fit the computation graph");
             return false;
@@ -92,30 +93,9 @@ impl<C: GKREngine, ECCConfig: Config<FieldConfig = C::FieldConfig>> ProvingSyste
                 let mut t = C::TranscriptConfig::new();
                 ec.fill_rnd_coefs(&mut t);
                 let mut cur = Cursor::new(&lp.data[0].bytes);
-                let (ok, ch, _v0, _v1) = gkr_verify(pc, &ec, &[], &<C::FieldConfig as FieldEngine>::ChallengeField::ZERO, &mut t, &mut cur);
+                let (ok, ch, v0, v1) = gkr_verify(pc, &ec, &[], &<C::FieldConfig as FieldEngine>::ChallengeField::ZERO, &mut t, &mut cur);
                 if !ok { return false; }
-                let chs = if let Some(cy) = ch.challenge_y() { vec![ch.challenge_x(), cy] } else { vec![ch.challenge_x()] };
-                for sc in &chs {
-                    for (&ref comm, &_ib) in comms.iter().zip(tmpl.is_broadcast().iter()) {
-                        let commitment_len = comm.vals_len;
-                        let local_size = commitment_len >> sc.r_mpi.len();
-                        let n_local = if local_size > 0 { local_size.ilog2() as usize } else { 0 };
-                        let mut eval_ch = sc.clone();
-                        eval_ch.rz.truncate(n_local);
-                        let _v: <C::FieldConfig as FieldEngine>::ChallengeField = t.generate_field_element();
-                        let max_len = *vs.v_keys.keys().max().unwrap();
-                        let params = <C::PCSConfig as ExpanderPCS<C::FieldConfig>>::gen_params(max_len.ilog2() as usize, 1);
-                        let v_key = vs.v_keys.get(&max_len).unwrap();
-                        let mut pcs_ch = sc.clone();
-                        pcs_ch.rz.extend_from_slice(&pcs_ch.r_mpi);
-                        pcs_ch.r_mpi = vec![];
-                        let target_rz = max_len.ilog2() as usize;
-                        while pcs_ch.rz.len() < target_rz { pcs_ch.rz.push(<C::FieldConfig as FieldEngine>::ChallengeField::ZERO); }
-                        // TODO: actually verify PCS opening against commitment
-                        let _ = (v_key, &params, &pcs_ch, comm, &mut cur);
-                    }
-                }
-                true
+                verify_pcs_opening_and_aggregation_mpi::<C, ECCConfig>(&mut cur, kernel, vs, &ch, v0, v1, &comms, tmpl.is_broadcast(), pc, &mut t)
             } else {
                 let mut t = C::TranscriptConfig::new();
                 ec.fill_rnd_coefs(&mut t);
@@ -197,12 +177,13 @@ fn prove_one<C: GKREngine, ECCConfig: Config<FieldConfig = C::FieldConfig>>(
         let t2 = std::time::Instant::now();
         let chs = if let Some(cy) = ch.challenge_y() { vec![ch.challenge_x(), cy] } else { vec![ch.challenge_x()] };
         for sc in &chs {
-            for (ci, (&ref v, &_ib)) in cvs.iter().zip(tmpl.is_broadcast().iter()).enumerate() {
-                let pc2 = sc.clone();
+            for (ci, (v, &ib)) in cvs.iter().zip(tmpl.is_broadcast().iter()).enumerate() {
                 let comm_idx = tmpl.commitment_indices()[ci];
+                let (challenge_for_pcs, _) = crate::zkcuda::proving_system::expander_parallelized::prove_impl::partition_challenge_and_location_for_pcs_mpi::<C::FieldConfig>(
+                    sc, v.len(), pc, ib);
                 let scratch = &commit_states[comm_idx].scratch;
-                crate::zkcuda::proving_system::expander::prove_impl::pcs_batch_open_with_scratch::<C>(
-                    v, &pc2, ps, &mut tr, Some(scratch));
+                crate::zkcuda::proving_system::expander::prove_impl::pcs_local_open_with_scratch::<C>(
+                    v, &challenge_for_pcs, ps, &mut tr, Some(scratch));
             }
         }
         let t3 = std::time::Instant::now();
-- 
2.43.0


From 3beacc431300f395d0b94a9eb84278d5cadf4bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:07 +0000
Subject: [PATCH 20/46] fix: read witnesses from shared memory without assuming
 alignment

---
 .../expander_parallelized/shared_memory_utils.rs         | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/expander_compiler/src/zkcuda/proving_system/expander_parallelized/shared_memory_utils.rs b/expander_compiler/src/zkcuda/proving_system/expander_parallelized/shared_memory_utils.rs
index b03aa63..ece236b 100644
--- a/expander_compiler/src/zkcuda/proving_system/expander_parallelized/shared_memory_utils.rs
+++ b/expander_compiler/src/zkcuda/proving_system/expander_parallelized/shared_memory_utils.rs
@@ -211,12 +211,13 @@ impl SharedMemoryEngine {
                 .unwrap();
                 ptr = unsafe { ptr.add(size_of::<usize>()) };
 
-                let mut vals = Vec::with_capacity(total_len_i);
+                let mut vals = Vec::<F::SimdCircuitField>::with_capacity(total_len_i);
                 unsafe {
+                    // The values follow a length, hence need not be aligned in the shared memory.
                     std::ptr::copy_nonoverlapping(
-                        ptr as *const F::SimdCircuitField,
-                        vals.as_mut_ptr(),
-                        total_len_i,
+                        ptr as *const u8,
+                        vals.as_mut_ptr() as *mut u8,
+                        total_len_i * std::mem::size_of::<F::SimdCircuitField>(),
                     );
                     vals.set_len(total_len_i);
                 }
-- 
2.43.0


From 22f1ee3d545c4822379948d6ddb73a458e1a6155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:02 +0000
Subject: [PATCH 21/46] fix: the deferred verifier checks the claims of the GKR
 proofs

The verifier checked the GKR proofs and the opened values of the
commitments, but not that the opened values are those the GKR proofs
are about: a proof beside any commitments was accepted.
---
 .../expander_pcs_defered/verify_impl.rs       | 94 +++++++++++++++----
 1 file changed, 74 insertions(+), 20 deletions(-)

diff --git a/expander_compiler/src/zkcuda/proving_system/expander_pcs_defered/verify_impl.rs b/expander_compiler/src/zkcuda/proving_system/expander_pcs_defered/verify_impl.rs
index bfa2e3a..f4de8d2 100644
--- a/expander_compiler/src/zkcuda/proving_system/expander_pcs_defered/verify_impl.rs
+++ b/expander_compiler/src/zkcuda/proving_system/expander_pcs_defered/verify_impl.rs
@@ -7,6 +7,7 @@ use gkr_engine::{
     ExpanderDualVarChallenge, ExpanderPCS, ExpanderSingleVarChallenge, FieldEngine, GKREngine,
     Proof as BytesProof, Transcript,
 };
+use polynomials::EqPolynomial;
 use serdes::ExpSerde;
 
 use crate::{
@@ -14,7 +15,7 @@ use crate::{
     utils::misc::next_power_of_two,
     zkcuda::{
         context::ComputationGraph,
-        kernel::Kernel,
+        kernel::{Kernel, LayeredCircuitInputVec},
         proving_system::{
             expander::structs::{ExpanderCommitment, ExpanderProof, ExpanderVerifierSetup},
             expander_parallelized::prove_impl::partition_challenge_and_location_for_pcs_mpi,
@@ -23,7 +24,11 @@ use crate::{
     },
 };
 
+/// The commitments and the points to open them at, with the weight of each opened value in the
+/// claim of the GKR proof.
+#[allow(clippy::type_complexity)]
 fn verifier_extract_pcs_claims<'a, C, ECCConfig>(
+    layered_circuit_input: &[LayeredCircuitInputVec],
     commitments: &[&'a ExpanderCommitment<C::FieldConfig, C::PCSConfig>],
     gkr_challenge: &ExpanderSingleVarChallenge<C::FieldConfig>,
     is_broadcast: &[bool],
@@ -31,6 +36,7 @@ fn verifier_extract_pcs_claims<'a, C, ECCConfig>(
 ) -> (
     Vec<&'a ExpanderCommitment<C::FieldConfig, C::PCSConfig>>,
     Vec<ExpanderSingleVarChallenge<C::FieldConfig>>,
+    Vec<<C::FieldConfig as FieldEngine>::ChallengeField>,
 )
 where
     C: GKREngine,
@@ -38,13 +44,18 @@ where
 {
     let mut commitments_rt = vec![];
     let mut challenges = vec![];
+    let mut weights = vec![];
 
-    for (&commitment, ib) in commitments.iter().zip(is_broadcast) {
+    for ((input, &commitment), ib) in layered_circuit_input
+        .iter()
+        .zip(commitments)
+        .zip(is_broadcast)
+    {
         let val_len =
             <ExpanderCommitment<C::FieldConfig, C::PCSConfig> as Commitment<ECCConfig>>::vals_len(
                 commitment,
             );
-        let (challenge_for_pcs, _) = partition_challenge_and_location_for_pcs_mpi(
+        let (challenge_for_pcs, component_idx_vars) = partition_challenge_and_location_for_pcs_mpi(
             gkr_challenge,
             val_len,
             parallel_count,
@@ -53,16 +64,24 @@ where
 
         commitments_rt.push(commitment);
         challenges.push(challenge_for_pcs);
+        weights.push(EqPolynomial::ith_eq_vec_elem(
+            &component_idx_vars,
+            input.offset / input.len,
+        ));
     }
 
-    (commitments_rt, challenges)
+    (commitments_rt, challenges, weights)
 }
 
 pub fn verify_gkr<C, ECCConfig>(
     kernel: &Kernel<ECCConfig>,
     proof: &ExpanderProof,
     parallel_count: usize,
-) -> (bool, ExpanderDualVarChallenge<C::FieldConfig>)
+) -> (
+    bool,
+    ExpanderDualVarChallenge<C::FieldConfig>,
+    <C::FieldConfig as FieldEngine>::ChallengeField,
+)
 where
     C: GKREngine,
     ECCConfig: Config<FieldConfig = C::FieldConfig>,
@@ -73,7 +92,7 @@ where
     expander_circuit.fill_rnd_coefs(&mut transcript);
 
     let mut cursor = Cursor::new(&proof.data[0].bytes);
-    let (verified, challenge, _claimed_v0, _claimed_v1) = gkr_verify(
+    let (verified, challenge, claimed_v0, _claimed_v1) = gkr_verify(
         parallel_count,
         &expander_circuit,
         &[],
@@ -84,10 +103,10 @@ where
 
     if !verified {
         println!("Failed to verify GKR proof");
-        return (false, challenge);
+        return (false, challenge, claimed_v0);
     }
 
-    (true, challenge)
+    (true, challenge, claimed_v0)
 }
 
 pub fn verify_defered_pcs_opening<C, ECCConfig>(
@@ -95,6 +114,10 @@ pub fn verify_defered_pcs_opening<C, ECCConfig>(
     verifier_setup: &ExpanderVerifierSetup<C::FieldConfig, C::PCSConfig>,
     commitments: &[&ExpanderCommitment<C::FieldConfig, C::PCSConfig>],
     challenges: &[ExpanderSingleVarChallenge<C::FieldConfig>],
+    claims: &[(
+        <C::FieldConfig as FieldEngine>::ChallengeField,
+        Vec<<C::FieldConfig as FieldEngine>::ChallengeField>,
+    )],
 ) -> bool
 where
     C: GKREngine,
@@ -121,6 +144,23 @@ where
         <C::PCSConfig as ExpanderPCS<C::FieldConfig>>::BatchOpening::deserialize_from(&mut cursor)
             .unwrap();
 
+    // the opened values must add up to what the GKR proofs claim
+    if vals.len() != challenges.len() {
+        println!("Unexpected number of opened values");
+        return false;
+    }
+    let mut vals_iter = vals.iter();
+    for (claim, weights) in claims {
+        let mut target = <C::FieldConfig as FieldEngine>::ChallengeField::ZERO;
+        for (weight, val) in weights.iter().zip(vals_iter.by_ref()) {
+            target += *weight * *val;
+        }
+        if target != *claim {
+            println!("Failed to verify the claim of a GKR proof");
+            return false;
+        }
+    }
+
     transcript.lock_proof();
     let pcs_verified = <C::PCSConfig as ExpanderPCS<C::FieldConfig>>::multi_points_batch_verify(
         &params,
@@ -167,8 +207,9 @@ where
                 .map(|idx| &proof.commitments[*idx])
                 .collect::<Vec<_>>();
 
-            let (verified, challenge) = verify_gkr::<C, ECCConfig>(
-                &computation_graph.kernels()[template.kernel_id()],
+            let kernel = &computation_graph.kernels()[template.kernel_id()];
+            let (verified, challenge, claimed_v0) = verify_gkr::<C, ECCConfig>(
+                kernel,
                 local_proof,
                 next_power_of_two(template.parallel_count()),
             );
@@ -176,18 +217,25 @@ where
             assert!(challenge.challenge_y().is_none());
             let challenge = challenge.challenge_x();
 
-            let (local_commitments, challenges) = verifier_extract_pcs_claims::<C, ECCConfig>(
-                &local_commitments,
-                &challenge,
-                template.is_broadcast(),
-                next_power_of_two(template.parallel_count()),
-            );
+            let (local_commitments, challenges, weights) =
+                verifier_extract_pcs_claims::<C, ECCConfig>(
+                    kernel.layered_circuit_input(),
+                    &local_commitments,
+                    &challenge,
+                    template.is_broadcast(),
+                    next_power_of_two(template.parallel_count()),
+                );
 
-            (verified, local_commitments, challenges)
+            (
+                verified,
+                local_commitments,
+                challenges,
+                (claimed_v0, weights),
+            )
         })
         .collect::<Vec<_>>();
 
-    let gkr_verified = verified_with_pcs_claims.iter().all(|(v, _, _)| *v);
+    let gkr_verified = verified_with_pcs_claims.iter().all(|(v, ..)| *v);
     if !gkr_verified {
         println!("Failed to verify GKR proofs");
         return false;
@@ -197,13 +245,18 @@ where
     let pcs_verification_timer = Timer::new("PCS Verification", true);
     let commitments_ref = verified_with_pcs_claims
         .iter()
-        .flat_map(|(_, c, _)| c)
+        .flat_map(|(_, c, ..)| c)
         .copied()
         .collect::<Vec<_>>();
 
     let challenges = verified_with_pcs_claims
         .iter()
-        .flat_map(|(_, _, c)| c.clone())
+        .flat_map(|(_, _, c, _)| c.clone())
+        .collect::<Vec<_>>();
+
+    let claims = verified_with_pcs_claims
+        .iter()
+        .map(|(.., claim)| claim.clone())
         .collect::<Vec<_>>();
 
     let pcs_verified = verify_defered_pcs_opening::<C, ECCConfig>(
@@ -211,6 +264,7 @@ where
         verifier_setup,
         &commitments_ref,
         &challenges,
+        &claims,
     );
     pcs_verification_timer.stop();
 
-- 
2.43.0


From f051f67fef3721b95d7d074413c7af1fe58bbc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:29 +0000
Subject: [PATCH 22/46] fix: server options no longer share their short names

---
 .../proving_system/expander_parallelized/server_ctrl.rs       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expander_compiler/src/zkcuda/proving_system/expander_parallelized/server_ctrl.rs b/expander_compiler/src/zkcuda/proving_system/expander_parallelized/server_ctrl.rs
index f51dd50..725eee8 100644
--- a/expander_compiler/src/zkcuda/proving_system/expander_parallelized/server_ctrl.rs
+++ b/expander_compiler/src/zkcuda/proving_system/expander_parallelized/server_ctrl.rs
@@ -374,7 +374,7 @@ pub struct ExpanderExecArgs {
     pub field_type: String,
 
     /// Fiat-Shamir Hash: SHA256, or Poseidon, or MiMC5
-    #[arg(short, long, default_value = "SHA256")]
+    #[arg(long, default_value = "SHA256")]
     pub fiat_shamir_hash: String,
 
     /// Polynomial Commitment Scheme: Raw, or Orion
@@ -382,7 +382,7 @@ pub struct ExpanderExecArgs {
     pub poly_commit: String,
 
     /// The port number for the server to listen on.
-    #[arg(short, long, default_value = "3000")]
+    #[arg(long, default_value = "3000")]
     pub port_number: String,
 
     /// Whether to batch PCS opening in proving.
-- 
2.43.0


From 0a99b7bf44eb3c074e07cb18615c6792864772ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:46 +0000
Subject: [PATCH 23/46] fix: setting a server up again releases the previous
 graph's shared memory

---
 .../proving_system/expander_parallelized/server_fns.rs      | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/expander_compiler/src/zkcuda/proving_system/expander_parallelized/server_fns.rs b/expander_compiler/src/zkcuda/proving_system/expander_parallelized/server_fns.rs
index d3e326d..fa3caca 100644
--- a/expander_compiler/src/zkcuda/proving_system/expander_parallelized/server_fns.rs
+++ b/expander_compiler/src/zkcuda/proving_system/expander_parallelized/server_fns.rs
@@ -148,6 +148,12 @@ pub fn read_circuit<C, ECCConfig>(
     C: GKREngine,
     ECCConfig: Config<FieldConfig = C::FieldConfig>,
 {
+    // dispose of the previous shared memory if it exists
+    if let Some(mut win_wrapper) = mpi_win.take() {
+        std::mem::take(computation_graph).discard_control_of_shared_mem();
+        global_mpi_config.free_shared_mem(&mut win_wrapper.win);
+    }
+
     let (cg, win) = if global_mpi_config.is_root() {
         let computation_graph_bytes =
             std::fs::read(setup_file).expect("Failed to read computation graph from file");
-- 
2.43.0


From a259115796585ec2be7ccdbccbf43eac56e1ce27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:43 +0000
Subject: [PATCH 24/46] fix: gt and geq compare only canonical bit
 decompositions

---
 expander_compiler/src/frontend/builder.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/expander_compiler/src/frontend/builder.rs b/expander_compiler/src/frontend/builder.rs
index 54659cc..4d3bd3b 100644
--- a/expander_compiler/src/frontend/builder.rs
+++ b/expander_compiler/src/frontend/builder.rs
@@ -486,6 +486,8 @@ impl<C: Config> BasicAPI<C> for Builder<C> {
         };
         let x_bits = self.to_binary(x, num_bits);
         let y_bits = self.to_binary(y, num_bits);
+        self.assert_bits_below_modulus(&x_bits);
+        self.assert_bits_below_modulus(&y_bits);
 
         for (i, x_bit) in x_bits.iter().enumerate() {
             self.display(format!("x[{i}]").as_ref(), x_bit);
@@ -531,6 +533,25 @@ impl<C: Config> BasicAPI<C> for Builder<C> {
     }
 }
 
+impl<C: Config> Builder<C> {
+    // With as many bits as the modulus has, some values x also decompose into the bits of
+    // x + modulus. Assert that the given bits (least significant first) are those of a value
+    // below the modulus.
+    fn assert_bits_below_modulus(&mut self, bits: &[Variable]) {
+        let max = CircuitField::<C>::MODULUS - 1;
+        // 1 iff all bits so far are set where the bits of the maximum are
+        let mut prefix = self.constant(CircuitField::<C>::one());
+        for (i, bit) in bits.iter().enumerate().rev() {
+            let t = self.mul(prefix, bit);
+            if (max >> i as u32) & 1 == 1 {
+                prefix = t;
+            } else {
+                self.assert_is_zero(t);
+            }
+        }
+    }
+}
+
 // write macro rules for unconstrained binary op definition
 macro_rules! unconstrained_binary_op {
     ($name:ident,$op_name:ident) => {
-- 
2.43.0


From ab50d273ac5879a9ede244362dbf86e11b4438eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:44 +0000
Subject: [PATCH 25/46] fix: the debug evaluator runs a memorized function more
 than once

---
 expander_compiler/src/frontend/debug.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/expander_compiler/src/frontend/debug.rs b/expander_compiler/src/frontend/debug.rs
index 79bafb5..94aff64 100644
--- a/expander_compiler/src/frontend/debug.rs
+++ b/expander_compiler/src/frontend/debug.rs
@@ -478,13 +478,9 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> RootAPI<C> for DebugBuilder<C, H
     }
 
     fn register_sub_circuit_output_structure(&mut self, circuit_id: usize, structure: Vec<usize>) {
-        if self
-            .sub_circuit_output_structure
-            .insert(circuit_id, structure)
-            .is_some()
-        {
-            panic!("subcircuit output structure already registered");
-        }
+        // sub-circuits are evaluated at every call, so the structure is registered every time
+        self.sub_circuit_output_structure
+            .insert(circuit_id, structure);
     }
 
     fn get_sub_circuit_output_structure(&self, circuit_id: usize) -> Vec<usize> {
-- 
2.43.0


From 08afe2bd5996798f113f09b043ae871bc5f927fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:26 +0000
Subject: [PATCH 26/46] fix: memorized functions with arguments of the same
 structure are different sub-circuits

---
 expander_compiler/macros/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/expander_compiler/macros/src/lib.rs b/expander_compiler/macros/src/lib.rs
index ba48d23..1d235ae 100644
--- a/expander_compiler/macros/src/lib.rs
+++ b/expander_compiler/macros/src/lib.rs
@@ -251,6 +251,11 @@ pub fn memorized(_attr: TokenStream, item: TokenStream) -> TokenStream {
 
             let mut hasher = tiny_keccak::Keccak::v256();
             hasher.update(b"memorized");
+            // functions with arguments of the same structure are told apart by where they are defined
+            hasher.update(
+                concat!(module_path!(), "::", stringify!(#user_fn_name), "@", file!(), ":", line!(), ":", column!(), ";")
+                    .as_bytes(),
+            );
 
             #(#hash_primitive_calls)*
 
-- 
2.43.0


From a8598f9f117aeb7aac7580c9c45084e0af0778c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:23 +0000
Subject: [PATCH 27/46] fix: simple memoised calls of closures that capture
 values

---
 expander_compiler/src/frontend/builder.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/expander_compiler/src/frontend/builder.rs b/expander_compiler/src/frontend/builder.rs
index 4d3bd3b..4646a55 100644
--- a/expander_compiler/src/frontend/builder.rs
+++ b/expander_compiler/src/frontend/builder.rs
@@ -740,6 +740,11 @@ impl<C: Config> RootAPI<C> for RootBuilder<C> {
         hasher.update(b"simple");
         hasher.update(&inputs.len().to_le_bytes());
         hasher.update(&get_function_id::<F>().to_le_bytes());
+        if std::mem::size_of::<F>() != 0 {
+            // the type does not tell captured values or function pointers apart, so that each
+            // call has to be a sub-circuit of its own
+            hasher.update(&self.full_hash_id.len().to_le_bytes());
+        }
         let mut hash = [0u8; 32];
         hasher.finalize(&mut hash);
 
-- 
2.43.0


From 298db129a29dcc4d9cac5d7dbbb2cb0063b66779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:01 +0000
Subject: [PATCH 28/46] fix: SHA-256 over GF2 pads messages that end in the
 last 64 bits of a block

---
 circuit-std-rs/src/sha256/gf2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuit-std-rs/src/sha256/gf2.rs b/circuit-std-rs/src/sha256/gf2.rs
index 6f78382..5ac1974 100644
--- a/circuit-std-rs/src/sha256/gf2.rs
+++ b/circuit-std-rs/src/sha256/gf2.rs
@@ -43,7 +43,7 @@ impl SHA256GF2 {
         // append a bit '1' first
         self.data.push(api.constant(1));
         // append '0' bits to make the length of data congruent to 448 mod 512
-        let zero_padding_len = 448 - ((data_len + 1) % 512);
+        let zero_padding_len = (448 + 512 - (data_len + 1) % 512) % 512;
         self.data
             .extend((0..zero_padding_len).map(|_| api.constant(0)));
         // append the length of the data in 64 bits
-- 
2.43.0


From 5b230d35cf364ba208c190dbf1a0dcdde5cdb0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:06 +0000
Subject: [PATCH 29/46] fix: range proofs refuse values that are in range only
 after the shift

---
 circuit-std-rs/src/logup.rs | 42 ++++++++++++-------------------------
 1 file changed, 13 insertions(+), 29 deletions(-)

diff --git a/circuit-std-rs/src/logup.rs b/circuit-std-rs/src/logup.rs
index d99b8b7..643f013 100644
--- a/circuit-std-rs/src/logup.rs
+++ b/circuit-std-rs/src/logup.rs
@@ -397,33 +397,13 @@ impl LogUpRangeProofTable {
             self.rangeproof_onechunk(builder, a, n);
             return;
         }
-        //add a shift value
-        let mut n = n;
-        let mut new_a = a;
-        let rem = n % self.rangeproof_bits;
-        if rem != 0 {
-            let shift = self.rangeproof_bits - rem;
-            let constant = (1 << shift) - 1;
-
-            let mut mul_factor: u128 = 1;
-            mul_factor <<= n;
-            let mul_factor_u256 = U256::new(mul_factor);
-            let mul_factor_var = CircuitField::<C>::from_u256(mul_factor_u256);
-            let mul_factor = builder.constant(mul_factor_var);
-            let a_shift = builder.mul(constant, mul_factor);
-            new_a = builder.add(a, a_shift);
-            n += shift;
-        }
+        let n_chunks = (n + self.rangeproof_bits - 1) / self.rangeproof_bits;
         let hint_input = vec![
-            builder.constant(n as u32),
+            builder.constant((n_chunks * self.rangeproof_bits) as u32),
             builder.constant(self.rangeproof_bits as u32),
-            new_a,
+            a,
         ];
-        let witnesses = builder.new_hint(
-            "myhint.rangeproofhint",
-            &hint_input,
-            n / self.rangeproof_bits,
-        );
+        let witnesses = builder.new_hint("myhint.rangeproofhint", &hint_input, n_chunks);
         let mut sum = witnesses[0];
         for (i, witness) in witnesses.iter().enumerate().skip(1) {
             let constant = 1u128 << (self.rangeproof_bits * i);
@@ -433,10 +413,13 @@ impl LogUpRangeProofTable {
             let mul = builder.mul(witness, constant);
             sum = builder.add(sum, mul);
         }
-        builder.assert_is_equal(sum, new_a);
-        for witness in witnesses.iter().take(n / self.rangeproof_bits) {
+        builder.assert_is_equal(sum, a);
+        for witness in witnesses.iter().take(n_chunks - 1) {
             self.query_range(*witness);
         }
+        //the most significant chunk may have fewer bits
+        let n_top_bits = n - (n_chunks - 1) * self.rangeproof_bits;
+        self.rangeproof_onechunk(builder, witnesses[n_chunks - 1], n_top_bits);
     }
 
     pub fn rangeproof_onechunk<C: Config, B: RootAPI<C>>(
@@ -449,8 +432,9 @@ impl LogUpRangeProofTable {
         if n > self.rangeproof_bits {
             panic!("n must be less than self.rangeproof_bits");
         }
+        //a itself must be in the table: a shifted value alone could come from a "negative" a
+        self.query_range(a);
         //add a shift value
-        let mut new_a = a;
         if n % self.rangeproof_bits != 0 {
             let rem = n % self.rangeproof_bits;
             let shift = self.rangeproof_bits - rem;
@@ -458,9 +442,9 @@ impl LogUpRangeProofTable {
             let mut mul_factor = 1;
             mul_factor <<= n;
             let a_shift = builder.mul(constant, mul_factor);
-            new_a = builder.add(a, a_shift);
+            let new_a = builder.add(a, a_shift);
+            self.query_range(new_a);
         }
-        self.query_range(new_a);
     }
 
     pub fn query_range(&mut self, key: Variable) {
-- 
2.43.0


From 8a72ce86beabbe61a1c7223eddcd2946c7886cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:06 +0000
Subject: [PATCH 30/46] fix: query counts distinguish keys that agree in their
 low 32 bits

---
 circuit-std-rs/src/logup.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/circuit-std-rs/src/logup.rs b/circuit-std-rs/src/logup.rs
index 643f013..efa9341 100644
--- a/circuit-std-rs/src/logup.rs
+++ b/circuit-std-rs/src/logup.rs
@@ -508,14 +508,14 @@ pub fn query_count_by_key_hint<F: Field>(inputs: &[F], outputs: &mut [F]) -> Res
     let table = &inputs[1..=table_size];
     let query_keys = &inputs[(table_size + 1)..];
 
-    let mut table_map: HashMap<u32, usize> = HashMap::new();
+    let mut table_map: HashMap<U256, usize> = HashMap::new();
     for key in query_keys {
-        let key_value = key.to_u256().as_u32();
+        let key_value = key.to_u256();
         *table_map.entry(key_value).or_insert(0) += 1;
     }
 
     for (i, value) in table.iter().enumerate() {
-        let key_value = value.to_u256().as_u32();
+        let key_value = value.to_u256();
         let count = table_map.get(&key_value).copied().unwrap_or(0);
         outputs_u32[i] = count as u32;
     }
-- 
2.43.0


From a591ee3b949efe85753bc55fd5bd6c1ef4c9f7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:25 +0000
Subject: [PATCH 31/46] fix: matrix products use the constant 1 and compare
 dimensions, not variable ids

---
 circuit-std-rs/src/matmul.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/circuit-std-rs/src/matmul.rs b/circuit-std-rs/src/matmul.rs
index 5112332..8f2ac99 100644
--- a/circuit-std-rs/src/matmul.rs
+++ b/circuit-std-rs/src/matmul.rs
@@ -3,7 +3,6 @@ use arith::Field;
 use expander_compiler::frontend::{
     declare_circuit, CircuitField, Config, Define, RootAPI, Variable, M31,
 };
-use std::convert::From;
 use std::ops::{AddAssign, Mul};
 
 #[derive(Clone, Copy, Debug)]
@@ -40,9 +39,9 @@ impl<C: Config> Define<C> for MatMulCircuit {
         let r2 = self.result_mat[0].len();
         let zero = builder.constant(0);
 
-        builder.assert_is_equal(Variable::from(n1), Variable::from(m2));
-        builder.assert_is_equal(Variable::from(r1), Variable::from(m1));
-        builder.assert_is_equal(Variable::from(r2), Variable::from(n2));
+        assert_eq!(n1, m2, "n1 != m2");
+        assert_eq!(r1, m1, "r1 != m1");
+        assert_eq!(r2, n2, "r2 != n2");
 
         let loop_count = if CircuitField::<C>::SIZE == M31::SIZE {
             3
@@ -56,7 +55,7 @@ impl<C: Config> Define<C> for MatMulCircuit {
             let mut challenge = randomness;
 
             // construct the aux matrix = [1, randomness, randomness^2, ..., randomness^（n-1）]
-            aux_mat.push(Variable::from(1));
+            aux_mat.push(builder.constant(1));
             for _ in 0..n2 - 1 {
                 challenge = builder.mul(challenge, randomness);
                 aux_mat.push(challenge);
-- 
2.43.0


From 8be48409dc0421a8df1caf0f6cd2776b859a9e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:50 +0000
Subject: [PATCH 32/46] fix: 2048-bit products compare every limb

---
 circuit-std-rs/src/non_native/u2048.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuit-std-rs/src/non_native/u2048.rs b/circuit-std-rs/src/non_native/u2048.rs
index 1b94548..5a2cb06 100644
--- a/circuit-std-rs/src/non_native/u2048.rs
+++ b/circuit-std-rs/src/non_native/u2048.rs
@@ -235,7 +235,7 @@ impl U2048Variable {
             );
         }
 
-        for i in 0..4 {
+        for i in 0..2 * N_LIMBS {
             builder.assert_is_equal(left[i], right[i]);
         }
     }
-- 
2.43.0


From e8b50f78d28c2d16a29068150c10a2227e5b9ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:44 +0000
Subject: [PATCH 33/46] fix: the map to G2 handles the exceptional inputs with
 the curve's own constant

---
 circuit-std-rs/src/gnark/emulated/sw_bls12381/g2.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/circuit-std-rs/src/gnark/emulated/sw_bls12381/g2.rs b/circuit-std-rs/src/gnark/emulated/sw_bls12381/g2.rs
index e6090d2..954b2fb 100644
--- a/circuit-std-rs/src/gnark/emulated/sw_bls12381/g2.rs
+++ b/circuit-std-rs/src/gnark/emulated/sw_bls12381/g2.rs
@@ -338,7 +338,8 @@ impl G2 {
         let x0_den = self.ext2.mul(native, &a_neg, &num_den_common);
 
         let x1_den = GE2::from_vars(
-            value_of::<C, B, Bls12381Fp>(native, Box::new(240)).limbs, value_of::<C, B, Bls12381Fp>(native, Box::new("4002409555221667392624310435006688643935503118305586438271171395842971157480381377015405980053539358417135540939436".to_string())).limbs,
+            value_of::<C, B, Bls12381Fp>(native, Box::new(240)).limbs,
+            value_of::<C, B, Bls12381Fp>(native, Box::new(-480)).limbs,
         );
 
         let exception = self.ext2.is_zero(native, &x0_den);
-- 
2.43.0


From 71cac123b985ad07d62276481fa35b4754de3746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:31 +0000
Subject: [PATCH 34/46] fix: the subgroup check of G1 compares with the point
 itself

---
 circuit-std-rs/src/gnark/emulated/sw_bls12381/pairing.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/circuit-std-rs/src/gnark/emulated/sw_bls12381/pairing.rs b/circuit-std-rs/src/gnark/emulated/sw_bls12381/pairing.rs
index fd43b44..9af4e6a 100644
--- a/circuit-std-rs/src/gnark/emulated/sw_bls12381/pairing.rs
+++ b/circuit-std-rs/src/gnark/emulated/sw_bls12381/pairing.rs
@@ -468,11 +468,11 @@ impl Pairing {
         // 1- Check P is on the curve
         self.assert_is_on_curve(native, p.clone());
         // 2- Check P has the right subgroup order
-        // [x²]ϕ(P)
+        // -[x²]ϕ(P) == P
         let phi_p = self.g1.phi(native, p);
         let p_squared = self.g1.scalar_mul_by_seed_square(native, &phi_p);
         let neg_p_squared = self.curve.neg(native, &p_squared);
-        self.g1.assert_is_equal(native, &neg_p_squared, &p_squared); // Neg returns an inverse of p. It doesn't modify p.);
+        self.g1.assert_is_equal(native, &neg_p_squared, p); // Neg returns an inverse of p. It doesn't modify p.);
     }
 
     // use p: G2Affine ?
-- 
2.43.0


From 9c5fb42612bfe95b6350b22b3b71f8d26e83a483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:58 +0000
Subject: [PATCH 35/46] fix: the final exponentiation check refuses zero
 witnesses

---
 circuit-std-rs/src/gnark/emulated/field_bls12381/e12.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/circuit-std-rs/src/gnark/emulated/field_bls12381/e12.rs b/circuit-std-rs/src/gnark/emulated/field_bls12381/e12.rs
index 6b6f2c4..29f3e32 100644
--- a/circuit-std-rs/src/gnark/emulated/field_bls12381/e12.rs
+++ b/circuit-std-rs/src/gnark/emulated/field_bls12381/e12.rs
@@ -542,6 +542,8 @@ impl Ext12 {
         let t1 = self.expt(native, &residue_witness);
         let t0 = self.mul(native, &t0, &t1);
         let t1 = self.mul(native, x, &scaling_factor);
+        // both come from hints, and zero would satisfy the equation for every x
+        self.inverse(native, &t1);
         self.assert_isequal(native, &t0, &t1);
     }
 
-- 
2.43.0


From 5b1c8d1b16ab590a5e0cfc705c3c1a9be7b036e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:26 +0000
Subject: [PATCH 36/46] fix: the root in the map to G1 is bound to the curve
 equation for every input

---
 circuit-std-rs/src/gnark/emulated/sw_bls12381/g1.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuit-std-rs/src/gnark/emulated/sw_bls12381/g1.rs b/circuit-std-rs/src/gnark/emulated/sw_bls12381/g1.rs
index bba0ee0..abed807 100644
--- a/circuit-std-rs/src/gnark/emulated/sw_bls12381/g1.rs
+++ b/circuit-std-rs/src/gnark/emulated/sw_bls12381/g1.rs
@@ -551,7 +551,7 @@ impl G1 {
 
         let res_y_sq = self.curve_f.mul(native, &res_y, &res_y);
 
-        let expected_y_sq = self.curve_f.select(native, is_square, &y1_sq, &res_y_sq);
+        let expected_y_sq = self.curve_f.select(native, is_square, &y1_sq, &y_sq);
 
         self.curve_f
             .assert_is_equal(native, &expected_y_sq, &res_y_sq);
-- 
2.43.0


From dd8aded3609257f1aa35f17e8c2f6cb4ad789fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:26 +0000
Subject: [PATCH 37/46] fix: sign, zero and decoding tests refuse
 representatives that are not canonical

---
 .../src/gnark/emulated/sw_bls12381/g1.rs       |  2 ++
 .../src/gnark/emulated/sw_bls12381/g2.rs       |  4 ++++
 circuit-std-rs/src/gnark/field.rs              | 18 ++++++++++++++++++
 3 files changed, 24 insertions(+)

diff --git a/circuit-std-rs/src/gnark/emulated/sw_bls12381/g1.rs b/circuit-std-rs/src/gnark/emulated/sw_bls12381/g1.rs
index abed807..2e62590 100644
--- a/circuit-std-rs/src/gnark/emulated/sw_bls12381/g1.rs
+++ b/circuit-std-rs/src/gnark/emulated/sw_bls12381/g1.rs
@@ -217,6 +217,7 @@ impl G1 {
         //get p.x
         let rev_buf = buf_x.iter().rev().cloned().collect::<Vec<_>>();
         let px = new_internal_element(rev_buf, 0);
+        self.curve_f.assert_is_in_range(native, &px);
 
         //get YSquared
         let ysquared = self.curve_f.mul(native, &px, &px);
@@ -236,6 +237,7 @@ impl G1 {
 
         //get Y
         let y = outputs[1].clone();
+        self.curve_f.assert_is_in_range(native, &y);
         //y^2 = ysquared
         let y_squared = self.curve_f.mul(native, &y, &y);
         self.curve_f.assert_is_equal(native, &y_squared, &ysquared);
diff --git a/circuit-std-rs/src/gnark/emulated/sw_bls12381/g2.rs b/circuit-std-rs/src/gnark/emulated/sw_bls12381/g2.rs
index 954b2fb..b90333d 100644
--- a/circuit-std-rs/src/gnark/emulated/sw_bls12381/g2.rs
+++ b/circuit-std-rs/src/gnark/emulated/sw_bls12381/g2.rs
@@ -558,6 +558,8 @@ impl G2 {
         //get p.x
         let rev_buf = buf_x.iter().rev().cloned().collect::<Vec<_>>();
         let px = GE2::from_vars(rev_buf[0..48].to_vec(), rev_buf[48..].to_vec());
+        self.ext2.curve_f.assert_is_in_range(native, &px.a0);
+        self.ext2.curve_f.assert_is_in_range(native, &px.a1);
 
         //get YSquared
         let ysquared = self.ext2.square(native, &px);
@@ -580,6 +582,8 @@ impl G2 {
 
         //get Y
         let y = GE2::from_vars(outputs[1].clone().limbs, outputs[2].clone().limbs);
+        self.ext2.curve_f.assert_is_in_range(native, &y.a0);
+        self.ext2.curve_f.assert_is_in_range(native, &y.a1);
         //y^2 = ysquared
         let y_squared = self.ext2.square(native, &y);
         self.ext2.assert_isequal(native, &y_squared, &ysquared);
diff --git a/circuit-std-rs/src/gnark/field.rs b/circuit-std-rs/src/gnark/field.rs
index 3029da0..ca81175 100644
--- a/circuit-std-rs/src/gnark/field.rs
+++ b/circuit-std-rs/src/gnark/field.rs
@@ -2,6 +2,7 @@ use crate::gnark::element::{new_internal_element, value_of, Element};
 use crate::gnark::emparam::FieldParams;
 use crate::gnark::utils::{hash_to_fp_variable, nb_multiplication_res_limbs, sub_padding};
 use crate::logup::LogUpRangeProofTable;
+use crate::sha256::m31_utils::big_less_than;
 use crate::utils::simple_select;
 use expander_compiler::frontend::{Config, RootAPI, Variable};
 use num_bigint::BigInt;
@@ -103,6 +104,7 @@ impl<T: FieldParams> GField<T> {
         a: &Element<T>,
     ) -> Variable {
         let ca = self.reduce(native, a, false);
+        self.assert_is_in_range(native, &ca);
         let mut res0;
         let total_overflow = ca.limbs.len() as i32 - 1;
         if total_overflow > self.max_overflow() as i32 {
@@ -125,8 +127,24 @@ impl<T: FieldParams> GField<T> {
         native: &mut B,
         x: &Element<T>,
     ) -> Variable {
+        let x = self.reduce(native, x, false);
+        self.assert_is_in_range(native, &x);
         native.to_binary(x.limbs[0], 30)[0]
     }
+    /// Asserts that the reduced element a is the representative less than the modulus.
+    /// The limb widths alone also admit some values plus the modulus.
+    pub fn assert_is_in_range<C: Config, B: RootAPI<C>>(&mut self, native: &mut B, a: &Element<T>) {
+        let mut limbs = a.limbs.clone();
+        limbs.resize(T::nb_limbs() as usize, native.constant(0));
+        let in_range = big_less_than(
+            native,
+            T::bits_per_limb() as usize,
+            T::nb_limbs() as usize,
+            &limbs,
+            &self.n_const.limbs,
+        );
+        native.assert_is_equal(in_range, 1);
+    }
     pub fn select<C: Config, B: RootAPI<C>>(
         &mut self,
         native: &mut B,
-- 
2.43.0


From 3fd74d8350d9da2406cb717108ebf1e63aef1e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:15 +0000
Subject: [PATCH 38/46] fix: the maps to the curves bind the root for the input
 0

---
 circuit-std-rs/src/gnark/emulated/sw_bls12381/g1.rs | 3 +++
 circuit-std-rs/src/gnark/emulated/sw_bls12381/g2.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/circuit-std-rs/src/gnark/emulated/sw_bls12381/g1.rs b/circuit-std-rs/src/gnark/emulated/sw_bls12381/g1.rs
index 2e62590..e0cc613 100644
--- a/circuit-std-rs/src/gnark/emulated/sw_bls12381/g1.rs
+++ b/circuit-std-rs/src/gnark/emulated/sw_bls12381/g1.rs
@@ -549,6 +549,9 @@ impl G1 {
             .curve_f
             .new_hint(native, "myhint.getsqrtx0x1fqnewhint", 2, inputs);
         let is_square = self.curve_f.is_zero(native, &output[0]); // is_square = 0 if y_sq has not square root, 1 otherwise
+        // in the exceptional case y_sq is a square, and for 0 the other equation reads 0 = 0
+        let no_root = native.mul(is_square, tv2_zero);
+        native.assert_is_zero(no_root);
         let res_y = output[1].clone();
 
         let res_y_sq = self.curve_f.mul(native, &res_y, &res_y);
diff --git a/circuit-std-rs/src/gnark/emulated/sw_bls12381/g2.rs b/circuit-std-rs/src/gnark/emulated/sw_bls12381/g2.rs
index b90333d..2dc80fb 100644
--- a/circuit-std-rs/src/gnark/emulated/sw_bls12381/g2.rs
+++ b/circuit-std-rs/src/gnark/emulated/sw_bls12381/g2.rs
@@ -378,6 +378,9 @@ impl G2 {
             .curve_f
             .new_hint(native, "myhint.getsqrtx0x1fq2newhint", 3, inputs);
         let is_square = self.ext2.curve_f.is_zero(native, &output[0]); // is_square = 0 if g_x0 has not square root, 1 otherwise
+        // in the exceptional case g_x0 is a square, and for 0 the other equation reads 0 = 0
+        let no_root = native.mul(is_square, exception);
+        native.assert_is_zero(no_root);
         let y = GE2 {
             a0: output[1].clone(),
             a1: output[2].clone(),
-- 
2.43.0


From 15c606e2ed417e12b5c6774ca0d2ca8c25938d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:31 +0000
Subject: [PATCH 39/46] fix: index nested kernel arguments by the product of
 parenthesised dimensions

A dimension written as an expression, such as N + 1, was spliced into the
index computation without parentheses, so arguments of three or more axes
were read and written at the wrong positions.
---
 expander_compiler/macros/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expander_compiler/macros/src/lib.rs b/expander_compiler/macros/src/lib.rs
index 1d235ae..218d52a 100644
--- a/expander_compiler/macros/src/lib.rs
+++ b/expander_compiler/macros/src/lib.rs
@@ -376,7 +376,7 @@ fn generate_unflatten_code(
     let mut steps = Vec::with_capacity(dims.len());
     let mut step = quote! { 1 };
     for &dim in dims.iter().skip(1).rev() {
-        step = quote! { #dim * (#step) };
+        step = quote! { (#dim) * (#step) };
         steps.push(step.clone());
     }
     steps.reverse();
@@ -458,7 +458,7 @@ fn generate_flatten_code(
     let mut steps = Vec::with_capacity(dims.len());
     let mut step = quote! { 1 };
     for &dim in dims.iter().skip(1).rev() {
-        step = quote! { #dim * (#step) };
+        step = quote! { (#dim) * (#step) };
         steps.push(step.clone());
     }
     steps.reverse();
-- 
2.43.0


From ca41a8d04f2d1310bfcaa47ebf990a58cb4173de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:23 +0000
Subject: [PATCH 40/46] fix: let an output-only kernel argument reuse a handle

The handle given for an argument that is only written was read as if it were
an input, so calling a kernel twice with the same output variable panicked.
---
 expander_compiler/src/zkcuda/context.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/expander_compiler/src/zkcuda/context.rs b/expander_compiler/src/zkcuda/context.rs
index d103f5a..1391118 100644
--- a/expander_compiler/src/zkcuda/context.rs
+++ b/expander_compiler/src/zkcuda/context.rs
@@ -341,6 +341,12 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
         if kernel.io_shapes().len() != ios.len() {
             panic!("Invalid number of inputs/outputs");
         }
+        // An output-only argument is overwritten, whatever its handle referred to before.
+        for (io, spec) in ios.iter_mut().zip(kernel.io_specs().iter()) {
+            if !spec.is_input {
+                *io = None;
+            }
+        }
         let mut is_broadcast = Vec::with_capacity(ios.len());
         for (i, ((kernel_shape, io), spec)) in kernel
             .io_shapes()
-- 
2.43.0


From 92b4e633eef7058efe38a341aeb0d301419c3717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:11 +0000
Subject: [PATCH 41/46] fix: build_hash_outputs must not read past the last
 hash input

---
 rsa_circuit/src/main.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/rsa_circuit/src/main.rs b/rsa_circuit/src/main.rs
index 5bd0ad0..97e41e2 100644
--- a/rsa_circuit/src/main.rs
+++ b/rsa_circuit/src/main.rs
@@ -89,11 +89,14 @@ fn build_hash_outputs(hash_inputs: &[u8]) -> [u8; HASH_OUTPUT_LEN] {
         hasher.update(&hash_input);
         let hash_output: [u8; 32] = hasher.finalize().into();
         hash_outputs.extend_from_slice(&hash_output);
-        hash_input = [
-            hash_inputs[(i + 2) * 32..(i + 3) * 32].as_ref(),
-            hash_output.as_ref(),
-        ]
-        .concat();
+        // the last hash consumes the last 32 bytes of the inputs
+        if i < 45 {
+            hash_input = [
+                hash_inputs[(i + 2) * 32..(i + 3) * 32].as_ref(),
+                hash_output.as_ref(),
+            ]
+            .concat();
+        }
     }
     assert!(hash_outputs.len() == HASH_OUTPUT_LEN);
 
-- 
2.43.0


From 266d85fd9eeb52859e2de5e5d9392117d813a7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:11 +0000
Subject: [PATCH 42/46] fix: draw hash inputs of the length the RSA circuit
 asks for

---
 rsa_circuit/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsa_circuit/src/main.rs b/rsa_circuit/src/main.rs
index 97e41e2..a23038c 100644
--- a/rsa_circuit/src/main.rs
+++ b/rsa_circuit/src/main.rs
@@ -241,7 +241,7 @@ fn main() {
     let n = (BigUint::from(1u64) << 120) + (BigUint::from(1u64) << 2047);
     let res = x.modpow(&pow, &n);
     let hash_inputs = {
-        let mut tmp = [0u8; HASH_OUTPUT_LEN];
+        let mut tmp = [0u8; HASH_INPUT_LEN];
         rng.fill_bytes(&mut tmp);
         tmp
     };
-- 
2.43.0


From b795262e598748436801cd4eb755f42bc25d5aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:11 +0000
Subject: [PATCH 43/46] fix: constrain every squaring of the RSA power, not
 only the first eleven

---
 rsa_circuit/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsa_circuit/src/main.rs b/rsa_circuit/src/main.rs
index a23038c..80a0fda 100644
--- a/rsa_circuit/src/main.rs
+++ b/rsa_circuit/src/main.rs
@@ -133,7 +133,7 @@ impl Define<BN254Config> for RSACircuit<Variable> {
             );
 
             // compute x^4, to x^65536
-            for i in 1..11 {
+            for i in 1..16 {
                 U2048Variable::assert_mul(
                     &x_power_vars[i - 1],
                     &x_power_vars[i - 1],
-- 
2.43.0


From d3a05c807e3ecda685f580495f63652cf3382c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:11 +0000
Subject: [PATCH 44/46] fix: RSAFieldElement::mod_mul returns the product
 reduced by the modulus

---
 rsa_circuit/src/native.rs | 85 +--------------------------------------
 1 file changed, 1 insertion(+), 84 deletions(-)

diff --git a/rsa_circuit/src/native.rs b/rsa_circuit/src/native.rs
index 6f6a59a..e0a1d7d 100644
--- a/rsa_circuit/src/native.rs
+++ b/rsa_circuit/src/native.rs
@@ -249,89 +249,6 @@ impl RSAFieldElement {
 
     // Performs modular multiplication: (self * other) mod modulus
     pub fn mod_mul(&self, other: &Self, modulus: &Self) -> Self {
-        // First compute full multiplication without reduction
-        let mut product = [0u128; 2 * N_LIMBS];
-        Self::mul_without_reduction(self, other, &mut product);
-
-        // Now we need to reduce the result modulo our modulus
-        // We'll use the division algorithm to compute quotient and remainder
-        let mut quotient = [0u128; N_LIMBS];
-        let mut remainder = [0u128; N_LIMBS];
-
-        // Start from the most significant limb
-        for i in (0..N_LIMBS).rev() {
-            // Process each limb of the product
-            let current_value = product[i + N_LIMBS];
-
-            // If we have any value in the upper half, we need to reduce it
-            if current_value > 0 {
-                // Estimate how many times we need to subtract modulus
-                // Since we're working with 120-bit limbs, we can do a rough estimate
-                let q = current_value;
-
-                // Update quotient
-                quotient[i] = q;
-
-                // Subtract q * modulus from the current position
-                let mut borrow = 0u128;
-                let mut carry = 0u128;
-
-                // First multiply q with modulus
-                for j in 0..N_LIMBS {
-                    if i + j < 2 * N_LIMBS {
-                        let (prod, prod_carry) = mul_u120_with_carry(&q, &modulus.data[j], &carry);
-                        carry = prod_carry;
-
-                        // Subtract from product
-                        if prod > product[i + j] + borrow {
-                            product[i + j] = (1u128 << 120) + product[i + j] - prod - borrow;
-                            borrow = 1;
-                        } else {
-                            product[i + j] = product[i + j] - prod - borrow;
-                            borrow = 0;
-                        }
-                    }
-                }
-            }
-        }
-
-        // The lower N_LIMBS of product is now our remainder
-        for i in 0..N_LIMBS {
-            remainder[i] = product[i] & MASK120;
-        }
-        remainder[N_LIMBS - 1] &= MASK8;
-
-        // Final adjustments if remainder >= modulus
-        let mut is_greater = false;
-        let mut i = N_LIMBS - 1;
-        while i > 0 && !is_greater {
-            match remainder[i].cmp(&modulus.data[i]) {
-                std::cmp::Ordering::Greater => {
-                    is_greater = true;
-                }
-                std::cmp::Ordering::Less => {
-                    break;
-                }
-                std::cmp::Ordering::Equal => {
-                    break;
-                }
-            }
-            i -= 1;
-        }
-
-        if is_greater {
-            let mut borrow = 0u128;
-            for i in 0..N_LIMBS {
-                if modulus.data[i] + borrow > remainder[i] {
-                    remainder[i] = (1u128 << 120) + remainder[i] - modulus.data[i] - borrow;
-                    borrow = 1;
-                } else {
-                    remainder[i] = remainder[i] - modulus.data[i] - borrow;
-                    borrow = 0;
-                }
-            }
-        }
-
-        Self { data: remainder }
+        self.slow_mul_mod(other, modulus).0
     }
 }
-- 
2.43.0


From fe88b89bf7e34325686a8b2815362c4d735a7a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:11 +0000
Subject: [PATCH 45/46] fix: let the interpreter loader read names on the
 left-hand side

---
 expander_compiler/src/utils/interpreter_loader.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/expander_compiler/src/utils/interpreter_loader.rs b/expander_compiler/src/utils/interpreter_loader.rs
index 6f9f2f3..aaca7ab 100644
--- a/expander_compiler/src/utils/interpreter_loader.rs
+++ b/expander_compiler/src/utils/interpreter_loader.rs
@@ -49,8 +49,7 @@ impl M31Loader {
 
     fn parse_lval(toks: &[&str]) -> usize {
         let raw = toks[1];
-        assert!((raw.chars().nth(0) == Some('=')));
-        assert!((raw.chars().nth(0) == Some('v')));
+        assert!(raw.starts_with("=v"));
         raw[2..].parse::<usize>().unwrap()
     }
 
-- 
2.43.0


From 8e4644a14e34ebd7b0fa2f9eefd383f1304c7eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:11 +0000
Subject: [PATCH 46/46] fix: a store of the interpreter loader keeps the
 results stored before

---
 expander_compiler/src/utils/interpreter_loader.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/expander_compiler/src/utils/interpreter_loader.rs b/expander_compiler/src/utils/interpreter_loader.rs
index aaca7ab..252fed3 100644
--- a/expander_compiler/src/utils/interpreter_loader.rs
+++ b/expander_compiler/src/utils/interpreter_loader.rs
@@ -184,8 +184,12 @@ impl M31Loader {
                     let i = Self::parse_idx(&v, 2);
                     let j = Self::parse_idx(&v, 3);
                     let idx = v[4][1..].parse::<usize>().unwrap();
-                    output.resize(i + 1, vec![]);
-                    output[i].resize(j + 1, vec![]);
+                    if output.len() <= i {
+                        output.resize(i + 1, vec![]);
+                    }
+                    if output[i].len() <= j {
+                        output[i].resize(j + 1, vec![]);
+                    }
                     output[i][j] = self.symbols[idx].clone();
                 }
                 _ => {
-- 
2.43.0

