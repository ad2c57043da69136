From 00ff6aacd215b1d971ed56f592134c233ddbf3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 01/43] fix: keep deterministic outcome 1 of isolated -X nodes
 in remove_pauli_measurements

---
 graphix/remove_pauli_measurements.py | 31 +++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/graphix/remove_pauli_measurements.py b/graphix/remove_pauli_measurements.py
index 71decac..6acfaf9 100644
--- a/graphix/remove_pauli_measurements.py
+++ b/graphix/remove_pauli_measurements.py
@@ -254,8 +254,14 @@ class _RemovePauliMeasurements:
     ``node_specs[node_map[u]].src == u``.
     """
 
+    outcome_one_nodes: set[Node]
+    """Set of removed nodes whose measurement outcome is deterministically 1, using the indexing of the original pattern.
+
+    All the other removed nodes are treated as having been measured with the outcome 0."""
+
     def __init__(self, cut: PauliPushingCut) -> None:
         self.cut = cut
+        self.outcome_one_nodes = set()
         self.graph = cut.original_pattern.graph()
         self.node_specs = {node: _NodeSpec(node) for node in self.graph.nodes()}
         for node, domain in cut.original_pattern.x_dict.items():
@@ -497,16 +503,30 @@ class _RemovePauliMeasurements:
         # modified while enumerating isolated nodes.
         for node in list(nx.isolates(self.graph)):
             if node not in self.input_node_set and node not in self.output_node_set:
-                if node not in self.pauli_measurements:
+                pauli_measurement = self.node_specs[node].pauli_measurement
+                if pauli_measurement is None:
                     warn("Non-Pauli measurement on an isolated node was removed.", stacklevel=stacklevel + 1)
+                elif pauli_measurement == PauliMeasurement(Axis.X, Sign.MINUS):
+                    # Measuring |+⟩ with -X always returns the outcome 1.
+                    self.outcome_one_nodes.add(self.node_specs[node].src)
                 self._remove_node(node)
 
+    def _constant_byproduct(self, domains: Domains) -> Clifford:
+        """Return the Pauli byproduct contributed by the removed nodes whose outcome is deterministically 1."""
+        byproduct = Clifford.I
+        if len(domains.t_domain & self.outcome_one_nodes) % 2 == 1:
+            byproduct = Clifford.Z
+        if len(domains.s_domain & self.outcome_one_nodes) % 2 == 1:
+            byproduct = Clifford.X @ byproduct
+        return byproduct
+
     def _create_new_m(self, original_m: Command.M) -> Command.M | None:
         node = self.node_map.get(original_m.node)
         if node is None:
             return None
         spec = self.node_specs[node]
-        new_m = original_m.clifford(spec.clifford)
+        byproduct = self._constant_byproduct(Domains(original_m.s_domain, original_m.t_domain))
+        new_m = original_m.clifford(byproduct).clifford(spec.clifford)
         new_m.node = node
         new_m.s_domain = _map_domain(self.node_map, new_m.s_domain)
         new_m.t_domain = _map_domain(self.node_map, new_m.t_domain)
@@ -527,7 +547,12 @@ class _RemovePauliMeasurements:
             for node in output_nodes
             if (s_domain := _map_domain(self.node_map, self.node_specs[node].domains.s_domain))
         }
-        c_dict = {node: clifford for node in output_nodes if (clifford := self.node_specs[node].clifford) != Clifford.I}
+        c_dict = {
+            node: clifford
+            for node in output_nodes
+            if (spec := self.node_specs[node])
+            and (clifford := spec.clifford @ self._constant_byproduct(spec.domains)) != Clifford.I
+        }
         return StandardizedPattern(
             self.cut.original_pattern.input_nodes,
             output_nodes,
-- 
2.43.0


From 0414c4eb01c2b071116ce28d46fad203f54f54fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:18 +0000
Subject: [PATCH 02/43] fix: do not drop the instructions that follow an
 identity gate in instructions_to_jcz

---
 graphix/transpiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index 046500b..c17d796 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -940,7 +940,7 @@ def instructions_to_jcz(instrs: Iterable[InstructionType]) -> Iterator[instructi
             case InstructionKind.J | InstructionKind.CZ | InstructionKind.M:
                 yield instr
             case InstructionKind.I:
-                return
+                pass
             case InstructionKind.H:
                 yield instruction.J(instr.target, 0)
             case InstructionKind.S:
-- 
2.43.0


From ca1451eb8b9007619bc9412255dbefe578df5399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:18 +0000
Subject: [PATCH 03/43] fix: keep the constant term when the coefficients of
 added affine expressions cancel

---
 graphix/parameter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/parameter.py b/graphix/parameter.py
index 891986f..647609a 100644
--- a/graphix/parameter.py
+++ b/graphix/parameter.py
@@ -202,7 +202,7 @@ class AffineExpression(Expression):
                 raise PlaceholderOperationError
             a = self.a + other.a
             if a == 0:
-                return 0
+                return self.b + other.b
             return AffineExpression(a=a, x=self.x, b=self.b + other.b)
         return NotImplemented
 
-- 
2.43.0


From 29dfb6fd9615640ded4ac884578311b0811a2746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:18 +0000
Subject: [PATCH 04/43] fix: use the documented probabilities in pauli_channel

---
 graphix/channels.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/graphix/channels.py b/graphix/channels.py
index d807814..99e8eb2 100644
--- a/graphix/channels.py
+++ b/graphix/channels.py
@@ -212,10 +212,10 @@ def pauli_channel(px: float, py: float, pz: float) -> KrausChannel:
     p_i = 1 - px - py - pz
     return KrausChannel(
         [
-            KrausData(np.sqrt(1 - p_i), Ops.I),
-            KrausData(np.sqrt(px / 3.0), Ops.X),
-            KrausData(np.sqrt(py / 3.0), Ops.Y),
-            KrausData(np.sqrt(pz / 3.0), Ops.Z),
+            KrausData(np.sqrt(p_i), Ops.I),
+            KrausData(np.sqrt(px), Ops.X),
+            KrausData(np.sqrt(py), Ops.Y),
+            KrausData(np.sqrt(pz), Ops.Z),
         ]
     )
 
-- 
2.43.0


From cd8cc43dbcd4a02eb1db6e84bb4307861cd07ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:18 +0000
Subject: [PATCH 05/43] fix: pass the random generator to the default selector
 of FixedBranchSelector

---
 graphix/branch_selector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/branch_selector.py b/graphix/branch_selector.py
index a8b6a75..9489319 100644
--- a/graphix/branch_selector.py
+++ b/graphix/branch_selector.py
@@ -131,7 +131,7 @@ class FixedBranchSelector(BranchSelector, Generic[_T]):
         if result is None:
             if self.default is None:
                 raise ValueError(f"Unexpected measurement of qubit {qubit}.")
-            return self.default.measure(qubit, f_expectation0)
+            return self.default.measure(qubit, f_expectation0, rng=rng, stacklevel=stacklevel + 1)
         return result
 
 
-- 
2.43.0


From cf6ae8d37d3761fc8193e9fe12a4541a278e6359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:18 +0000
Subject: [PATCH 06/43] fix: pass the random generator to the composed noise
 models for input nodes

---
 graphix/noise_models/noise_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphix/noise_models/noise_model.py b/graphix/noise_models/noise_model.py
index 94b2237..4e3aa9d 100644
--- a/graphix/noise_models/noise_model.py
+++ b/graphix/noise_models/noise_model.py
@@ -150,7 +150,9 @@ class ComposeNoiseModel(NoiseModel):
         self, nodes: Iterable[int], rng: Generator | None = None, *, stacklevel: int = 1
     ) -> list[CommandOrNoise]:
         """Return the noise to apply to input nodes."""
-        return [n_cmd for m in self.models for n_cmd in m.input_nodes(nodes, stacklevel=stacklevel + 1)]
+        return [
+            n_cmd for m in self.models for n_cmd in m.input_nodes(nodes, rng=rng, stacklevel=stacklevel + 1)
+        ]
 
     @override
     def command(
-- 
2.43.0


From 8b306a086d34be68d9f02de7676f77606d332329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:18 +0000
Subject: [PATCH 07/43] fix: take J gates into account in
 Circuit.is_parameterized

---
 graphix/transpiler.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index c17d796..f3dfd75 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -700,7 +700,13 @@ class Circuit(InplaceParameterizable):
         """
         for instr in self.instruction:
             match instr.kind:
-                case InstructionKind.RZZ | InstructionKind.RX | InstructionKind.RY | InstructionKind.RZ:
+                case (
+                    InstructionKind.RZZ
+                    | InstructionKind.RX
+                    | InstructionKind.RY
+                    | InstructionKind.RZ
+                    | InstructionKind.J
+                ):
                     if not isinstance(instr.angle, SupportsFloat):
                         return True
         return False
-- 
2.43.0


From 3bd0b3e41d07f253a6bfafe2c6f33b07a1d96c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 08/43] fix: never select an outcome of zero probability in
 RandomBranchSelector

---
 graphix/branch_selector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/branch_selector.py b/graphix/branch_selector.py
index 9489319..20a1f89 100644
--- a/graphix/branch_selector.py
+++ b/graphix/branch_selector.py
@@ -86,7 +86,7 @@ class RandomBranchSelector(BranchSelector):
         rng = ensure_rng(rng, stacklevel=stacklevel + 1)
         if self.pr_calc:
             prob_0 = f_expectation0()
-            return outcome(rng.random() > prob_0)
+            return outcome(rng.random() >= prob_0)
         result: Outcome = rng.choice([0, 1])
         return result
 
-- 
2.43.0


From d6584db866573f209c51d0b2dcdda92362a542cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:30 +0000
Subject: [PATCH 09/43] fix: do not modify shared commands and domains in place
 in shift_signals

---
 graphix/pattern.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index 6597aab..98f4213 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -846,7 +846,7 @@ class Pattern(InplaceParameterizable):
         assert s.kind == CommandKind.S
         assert x.kind == CommandKind.X
         if s.node in x.domain:
-            x.domain ^= s.domain
+            self.__seq[target + 1] = dataclasses.replace(x, domain=x.domain ^ s.domain)
         self._commute_with_following(target)
 
     def _commute_zs(self, target: int) -> None:
@@ -863,7 +863,7 @@ class Pattern(InplaceParameterizable):
         assert s.kind == CommandKind.S
         assert z.kind == CommandKind.Z
         if s.node in z.domain:
-            z.domain ^= s.domain
+            self.__seq[target + 1] = dataclasses.replace(z, domain=z.domain ^ s.domain)
         self._commute_with_following(target)
 
     def _commute_ms(self, target: int) -> None:
@@ -879,10 +879,9 @@ class Pattern(InplaceParameterizable):
         m = self.__seq[target + 1]
         assert s.kind == CommandKind.S
         assert m.kind == CommandKind.M
-        if s.node in m.s_domain:
-            m.s_domain ^= s.domain
-        if s.node in m.t_domain:
-            m.t_domain ^= s.domain
+        s_domain = m.s_domain ^ s.domain if s.node in m.s_domain else m.s_domain
+        t_domain = m.t_domain ^ s.domain if s.node in m.t_domain else m.t_domain
+        self.__seq[target + 1] = dataclasses.replace(m, s_domain=s_domain, t_domain=t_domain)
         self._commute_with_following(target)
 
     def _commute_ss(self, target: int) -> None:
@@ -899,7 +898,7 @@ class Pattern(InplaceParameterizable):
         assert s1.kind == CommandKind.S
         assert s2.kind == CommandKind.S
         if s1.node in s2.domain:
-            s2.domain ^= s1.domain
+            self.__seq[target + 1] = dataclasses.replace(s2, domain=s2.domain ^ s1.domain)
         self._commute_with_following(target)
 
     def _commute_with_following(self, target: int) -> None:
@@ -1019,8 +1018,9 @@ class Pattern(InplaceParameterizable):
                 extracted_signal = extract_signal(cmd.measurement.to_bloch().plane, cmd.s_domain, cmd.t_domain)
                 if extracted_signal.signal:
                     self.__seq.insert(pos + 1, command.S(node=cmd.node, domain=extracted_signal.signal))
-                    cmd.s_domain = extracted_signal.s_domain
-                    cmd.t_domain = extracted_signal.t_domain
+                    self.__seq[pos] = dataclasses.replace(
+                        cmd, s_domain=extracted_signal.s_domain, t_domain=extracted_signal.t_domain
+                    )
                     pos += 1
                 signal_dict[cmd.node] = extracted_signal.signal
             pos += 1
-- 
2.43.0


From 4d7e9c72ddb1725ff3fa4fad21e07c8bfb7b01c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:30 +0000
Subject: [PATCH 10/43] fix: allow composing an empty pattern

---
 graphix/pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index 98f4213..1899606 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -358,7 +358,7 @@ class Pattern(InplaceParameterizable):
                 stacklevel=2,
             )
 
-        shift = max((*nodes_p1, *mapping.values())) + 1
+        shift = max((*nodes_p1, *mapping.values()), default=-1) + 1
         mapping_complete = other.node_mapping(mapping, start=shift)
         other = other.reindex(mapping_complete, copy=True)
 
-- 
2.43.0


From aff13572ea0d809a055c120f071c78e84200e7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 11/43] fix: allow composing an empty open graph

---
 graphix/opengraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/opengraph.py b/graphix/opengraph.py
index a896a92..21afe60 100644
--- a/graphix/opengraph.py
+++ b/graphix/opengraph.py
@@ -711,7 +711,7 @@ class OpenGraph(Parameterizable, Generic[_AM_co]):
             if vm is not None and (uc := self.output_cliffords.get(u)) is not None:
                 measurements_other[v] = vm.clifford(uc)
 
-        shift = max((*self.graph.nodes, *mapping.values())) + 1
+        shift = max((*self.graph.nodes, *mapping.values()), default=-1) + 1
 
         mapping_sequential = {
             node: i for i, node in enumerate(sorted(other.graph.nodes - mapping.keys()), start=shift)
-- 
2.43.0


From 4f24aa3ef5940f96745bc33908f21c953526bbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 12/43] fix: do not read past the end of the pattern in
 connected_nodes

---
 graphix/pattern.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index 1899606..676de54 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -1272,15 +1272,16 @@ class Pattern(InplaceParameterizable):
         node_list = []
         ind = self._find_op_to_be_moved(CommandKind.E)
         if ind is not None:  # end -> 'node' is isolated
-            cmd = self.__seq[ind]
-            while cmd.kind == CommandKind.E:
+            while ind < len(self.__seq):
+                cmd = self.__seq[ind]
+                if cmd.kind != CommandKind.E:
+                    break
                 if cmd.nodes[0] == node:
                     if cmd.nodes[1] not in prepared:
                         node_list.append(cmd.nodes[1])
                 elif cmd.nodes[1] == node and cmd.nodes[0] not in prepared:
                     node_list.append(cmd.nodes[0])
                 ind += 1
-                cmd = self.__seq[ind]
         return node_list
 
     def correction_commands(self) -> list[command.X | command.Z]:
-- 
2.43.0


From 92df7b859bc138a818eb7a7f82794b1514ee9eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:43 +0000
Subject: [PATCH 13/43] fix: count the input nodes in space_list

---
 graphix/pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index 676de54..7b178ab 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -1375,7 +1375,7 @@ class Pattern(InplaceParameterizable):
         N_list : list
             time evolution of 'space' at each 'N' and 'M' commands of pattern.
         """
-        nodes = 0
+        nodes = len(self.__input_nodes)
         n_list = []
         for cmd in self.__seq:
             match cmd.kind:
-- 
2.43.0


From 201e271a1391e8a4c9c420d3611fa17900aec9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:49 +0000
Subject: [PATCH 14/43] fix: update n_node when nodes are added or removed in
 place

---
 graphix/pattern.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index 7b178ab..3031d05 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -1924,6 +1924,7 @@ class Pattern(InplaceParameterizable):
             return pattern
         self.__seq = pattern.__seq
         self.__output_nodes = pattern.__output_nodes
+        self.__n_node = pattern.__n_node
         return self
 
     def remove_local_clifford_commands(self, *, copy: bool = False) -> Pattern:
@@ -1954,6 +1955,7 @@ class Pattern(InplaceParameterizable):
             return new_pattern
         self.__seq = new_pattern.__seq
         self.__output_nodes = new_pattern.__output_nodes
+        self.__n_node = new_pattern.__n_node
         return self
 
 
-- 
2.43.0


From 529c26e36027f86fc8e82e86eb68fbc2b33ca9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:15 +0000
Subject: [PATCH 15/43] fix: ignore identity Clifford commands in
 remove_local_clifford_commands

---
 graphix/optimization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphix/optimization.py b/graphix/optimization.py
index a571218..6d302b3 100644
--- a/graphix/optimization.py
+++ b/graphix/optimization.py
@@ -629,6 +629,8 @@ def remove_local_clifford_commands(pattern: Pattern) -> Pattern:
 
     for cmd in pattern:
         match cmd.kind:
+            case CommandKind.C if cmd.clifford is Clifford.I:
+                pass
             case CommandKind.C:
                 cmd_node = reindex(cmd.node)
                 clifford_pattern = cmd.clifford.to_opengraph().to_pattern()
-- 
2.43.0


From 0b863656500e365fbac409e642729dff53e7a790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:40 +0000
Subject: [PATCH 16/43] fix: do not drop the last measured layer of patterns
 without outputs in parallelize_pattern

---
 graphix/pattern.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index 3031d05..90cea1c 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -1159,7 +1159,8 @@ class Pattern(InplaceParameterizable):
             optimal measurement order for parallel computing
         """
         partial_order_layers = self.partial_order_layers()
-        return list(itertools.chain(*reversed(partial_order_layers[1:])))
+        shift = 1 if self.output_nodes else 0  # The first layer contains the output nodes, if any.
+        return list(itertools.chain(*reversed(partial_order_layers[shift:])))
 
     def sort_measurement_commands(self, meas_order: list[int]) -> list[command.M]:
         """Convert measurement order to sequence of measurement commands.
-- 
2.43.0


From 95f1a7718df9c0ef7530287c0328235baee17568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:34 +0000
Subject: [PATCH 17/43] fix: reject input nodes in reconstructed Pauli-flow
 correction sets

XZCorrections.to_pauliflow pinned the X-corrections into the correction set
without checking that they act on non-input nodes, and returned a Pauli flow
whose image contains input nodes instead of raising FlowError.
---
 graphix/flow/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphix/flow/core.py b/graphix/flow/core.py
index 1cea8c4..d00f560 100644
--- a/graphix/flow/core.py
+++ b/graphix/flow/core.py
@@ -1481,6 +1481,8 @@ def _solve_pauli_correction_set(
     self_fixed_in = label in {Plane.XZ, Plane.YZ, Axis.Z}
     if self_fixed_in and node not in non_inputs:
         return None  # ``node`` must correct itself but is an input node.
+    if not x_corr <= non_inputs:
+        return None  # An input node cannot belong to a correction set.
 
     # Free variables of the GF(2) system: the X/Y-measured, non-input nodes that are not in the
     # future of ``node`` (the "anachronical" candidates, plus ``node`` itself when it qualifies).
-- 
2.43.0


From 373c3c35b1b723f4d43b1156ccb8aa420d98b503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:36 +0000
Subject: [PATCH 18/43] fix: accept the empty measurement order of
 XZ-corrections without measured nodes

XZCorrections.is_compatible([]) (and to_pattern with the order returned by
generate_total_measurement_order) raised IndexError when every node is an
output.
---
 graphix/flow/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphix/flow/core.py b/graphix/flow/core.py
index d00f560..a7b1fac 100644
--- a/graphix/flow/core.py
+++ b/graphix/flow/core.py
@@ -392,6 +392,9 @@ class XZCorrections(Parameterizable, Generic[_AM_co]):
         shift = 1 if self.og.output_nodes else 0
         measured_layers = list(reversed(self.partial_order_layers[shift:]))
 
+        if not measured_layers:
+            return True  # There are no measured nodes.
+
         i = 0
         n_measured_layers = len(measured_layers)
         layer = measured_layers[0]
-- 
2.43.0


From 461879e2fd6c2f64e54745fcfe9abcf38ef0a180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:25 +0000
Subject: [PATCH 19/43] fix: order of the output nodes after swap elimination
 with measured qubits

TranspileSwapsResult.extract_output_node_indices numbered the remaining output
nodes by the qubits of the original circuit instead of those of the swapped
circuit: Circuit.transpile raised KeyError (e.g. swap(0, 1); m(0, Z)) or
permuted the outputs.
---
 graphix/transpiler.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index f3dfd75..ffbca7b 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -1015,13 +1015,9 @@ class TranspileSwapsResult:
 
     def extract_output_node_indices(self) -> tuple[int, ...]:
         """Return for each output node, sorted in the order of the original circuit, the index of the corresponding output node in the order of the swapped circuit."""
-        reduced_index = {}
-        reduced_counter = 0
-        for index, output in enumerate(self.outputs):
-            if output.kind == OutputKind.Qubit:
-                reduced_index[index] = reduced_counter
-                reduced_counter += 1
-        return tuple(reduced_index[index] for index in self.extract_outputs(OutputKind.Qubit))
+        indices = self.extract_outputs(OutputKind.Qubit)
+        reduced_index = {index: reduced for reduced, index in enumerate(sorted(indices))}
+        return tuple(reduced_index[index] for index in indices)
 
     def swap_output_nodes(self, output_nodes: Sequence[Node]) -> tuple[Node, ...]:
         """Reorder the output nodes of a pattern obtained from a swapped circuit to restore the qubit ordering of the original circuit."""
-- 
2.43.0


From 59400f62aaae76e6f100b664f6f6b4ccefdb7eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:25 +0000
Subject: [PATCH 20/43] fix: classical outputs of transpiled circuits follow
 the order of the gates

With swap elimination (the default), Circuit.transpile sorted the classical
outputs by qubit, although they are documented to be in the order of the gates
(and are so without swap elimination).
---
 graphix/transpiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index ffbca7b..8d9cca7 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -514,8 +514,8 @@ class Circuit(InplaceParameterizable):
         swap = _transpile_swaps(self, copy=True)
         result = swap.circuit.transpile_to_causalflow().to_pattern()
         result.pattern.reorder_output_nodes(swap.swap_output_nodes(result.pattern.output_nodes))
-        classical_outputs = swap.swap_classical_outputs(result.classical_outputs)
-        return TranspiledPattern(result.pattern, classical_outputs)
+        # Swap elimination preserves the order of the measurements.
+        return TranspiledPattern(result.pattern, result.classical_outputs)
 
     @overload
     def simulate(
-- 
2.43.0


From 7601c81edb3090e7916571255c24d37859ddb831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:30 +0000
Subject: [PATCH 21/43] fix: keep the active qubits up to date when a circuit
 is rewritten by a visitor or swap elimination

---
 graphix/transpiler.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index 8d9cca7..b4b1f94 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -663,11 +663,19 @@ class Circuit(InplaceParameterizable):
             result = Circuit(self.width)
             for instr in self.instruction:
                 result.instruction.append(instr.visit(visitor, copy=True))
+            result._update_active_qubits()
             return result
         for instr in self.instruction:
             instr.visit(visitor, copy=False)
+        self._update_active_qubits()
         return self
 
+    def _update_active_qubits(self) -> None:
+        """Recompute the set of qubits that have not been measured from the instructions."""
+        self.active_qubits = set(range(self.width)) - {
+            instr.target for instr in self.instruction if instr.kind == InstructionKind.M
+        }
+
     def apply_angle(self, f: Callable[[ParameterizedAngle], ParameterizedAngle], *, copy: bool = False) -> Circuit:
         """Apply ``f`` to all angles that occur in the circuit.
 
@@ -1109,6 +1117,7 @@ def transpile_swaps(circuit: Circuit, *, copy: bool = False) -> TranspileSwapsRe
             new_circuit.add(instr.visit(visitor, copy=copy))
     if not copy:
         circuit.instruction = new_circuit.instruction
+        circuit.active_qubits = new_circuit.active_qubits
         new_circuit = circuit
     return TranspileSwapsResult(new_circuit, tuple(visitor.outputs))
 
-- 
2.43.0


From a497355c9efccca240bdfc70c32346fecedfbfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:00 +0000
Subject: [PATCH 22/43] fix: sign of the extracted Clifford map for inputs
 measured along a negative Pauli axis

---
 graphix/circ_ext/extraction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphix/circ_ext/extraction.py b/graphix/circ_ext/extraction.py
index 5d5fa14..dacde44 100644
--- a/graphix/circ_ext/extraction.py
+++ b/graphix/circ_ext/extraction.py
@@ -551,7 +551,8 @@ def extraction_ps_from_corrected_node(flow: PauliFlow[Measurement], node: Node)
     negative_sign ^= bool(len(inter_c_odd_set) // 2 % 2)
 
     # One phase flip per node in the graph state stabilizer that is absorbed from a Pauli measurement with angle π.
-    for n in c_set | odd_c_set:
+    # The corrected node itself is not absorbed: its operator anticommutes with its measurement.
+    for n in (c_set | odd_c_set) - {node}:
         meas = og.measurements.get(n, None)
         if isinstance(meas, PauliMeasurement):
             negative_sign ^= meas.sign == Sign.MINUS
-- 
2.43.0


From 82be2d75b88c9de198bcab062515b4fe4b227acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:51 +0000
Subject: [PATCH 23/43] fix: reject out-of-range positions in Statevector.swap

---
 graphix/sim/statevec.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphix/sim/statevec.py b/graphix/sim/statevec.py
index 0cb4eac..b75b55a 100644
--- a/graphix/sim/statevec.py
+++ b/graphix/sim/statevec.py
@@ -503,6 +503,8 @@ class Statevector(DenseState):
         qubits : tuple[int, int]
             (control, target) qubit indices.
         """
+        for qubit in qubits:
+            self._check_bounds(qubit)
         _swap_jit(self._psi, self.nqubit, *qubits)
 
     def tensor(self, other: Statevector) -> None:
-- 
2.43.0


From 11c36d21a17e9acc9318ea284148810663be6ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:42 +0000
Subject: [PATCH 24/43] fix: reject amplitude vectors whose length is not a
 power of two when nqubit is given

---
 graphix/sim/statevec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphix/sim/statevec.py b/graphix/sim/statevec.py
index b75b55a..1aac6de 100644
--- a/graphix/sim/statevec.py
+++ b/graphix/sim/statevec.py
@@ -187,9 +187,9 @@ class Statevector(DenseState):
         # `SupportsFloat` is needed because `numpy.float64` is not an instance of `SupportsComplex`!
         elif isinstance(input_list[0], (SupportsComplex, SupportsFloat)):
             inferred_nqubit = length.bit_length() - 1
+            if length & (length - 1):
+                raise ValueError(f"Length of input data is not a power of two: {length}.")
             if nqubit is None:
-                if length & (length - 1):
-                    raise ValueError(f"Length of input data is not a power of two: {length}.")
                 nqubit = inferred_nqubit
             elif nqubit != inferred_nqubit:
                 raise ValueError(f"Mismatch between nqubit and inferred nqubit: {nqubit} != {inferred_nqubit}.")
-- 
2.43.0


From f40f56ff7471bb6d3a88b669390fd6e1d109ef6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:46 +0000
Subject: [PATCH 25/43] fix: density matrices given with real or integer
 entries can be combined with other states

---
 graphix/sim/density_matrix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphix/sim/density_matrix.py b/graphix/sim/density_matrix.py
index ad42a0e..274da03 100644
--- a/graphix/sim/density_matrix.py
+++ b/graphix/sim/density_matrix.py
@@ -107,6 +107,7 @@ class DensityMatrix(DenseState, InplaceParameterizable):
                         raise ValueError("Density matrix must have unit trace.")
                     if not lv.is_psd(self.rho):
                         raise ValueError("Density matrix must be positive semi-definite.")
+                    self.rho = self.rho.astype(np.complex128, copy=False)
                 return
         statevec = Statevector(data, nqubit)
         # NOTE this works since np.outer flattens the inputs!
-- 
2.43.0


From d1cb70efe62b3c6cab9b059a4b3abd55ef8014b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:46 +0000
Subject: [PATCH 26/43] fix: DensityMatrix.expectation_single leaves the state
 unchanged

---
 graphix/sim/density_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/sim/density_matrix.py b/graphix/sim/density_matrix.py
index 274da03..8679c2d 100644
--- a/graphix/sim/density_matrix.py
+++ b/graphix/sim/density_matrix.py
@@ -279,7 +279,7 @@ class DensityMatrix(DenseState, InplaceParameterizable):
         if op.shape != (2, 2):
             raise ValueError("op must be 2x2 matrix.")
 
-        st1 = _copy.copy(self)
+        st1 = DensityMatrix(self)  # an independent copy: normalize works in place
         st1.normalize()
 
         nqubit = self.nqubit
-- 
2.43.0


From e1aa6e0d8a44a8e5034dd0cdeaafb85a6bc45287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:22 +0000
Subject: [PATCH 27/43] fix: DensityMatrix.fidelity tolerates rounding in the
 imaginary part

---
 graphix/sim/density_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/sim/density_matrix.py b/graphix/sim/density_matrix.py
index 8679c2d..a21853e 100644
--- a/graphix/sim/density_matrix.py
+++ b/graphix/sim/density_matrix.py
@@ -407,7 +407,7 @@ class DensityMatrix(DenseState, InplaceParameterizable):
         result = vdot(statevec.psi, matmul(self.rho, statevec.psi))
         if isinstance(result, Expression):
             return result
-        assert math.isclose(result.imag, 0)
+        assert math.isclose(result.imag, 0, abs_tol=1e-10)
         return result.real
 
     def flatten(self) -> Matrix:
-- 
2.43.0


From 40fb128aeab3182bbb3a6e911e616bff316e8838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:01 +0000
Subject: [PATCH 28/43] fix: substituting parameters in a density matrix keeps
 complex entries and remaining expressions

---
 graphix/sim/density_matrix.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/graphix/sim/density_matrix.py b/graphix/sim/density_matrix.py
index a21853e..356a373 100644
--- a/graphix/sim/density_matrix.py
+++ b/graphix/sim/density_matrix.py
@@ -32,14 +32,25 @@ from graphix.sim.statevec import Statevector, _check_permutation
 from graphix.states import BasicStates, State
 
 if TYPE_CHECKING:
-    from collections.abc import Mapping, Sequence
+    from collections.abc import Callable, Mapping, Sequence
     from typing import SupportsComplex, SupportsFloat
 
     from graphix.noise_models.noise_model import Noise
-    from graphix.parameter import ExpressionOrSupportsFloat, Parameter
+    from graphix.parameter import ExpressionOrComplex, ExpressionOrSupportsFloat, Parameter
     from graphix.sim.data import Data
 
 
+def _map_entries(f: Callable[[ExpressionOrComplex], ExpressionOrComplex], rho: Matrix) -> Matrix:
+    """Apply ``f`` to each entry; the result is numeric if no expression remains.
+
+    The element type is not left to :func:`numpy.vectorize`, which infers it from the first entry only.
+    """
+    result = np.vectorize(f, otypes=[np.object_])(rho)
+    if any(isinstance(value, Expression) for value in result.flat):
+        return result
+    return result.astype(np.complex128)
+
+
 class DensityMatrix(DenseState, InplaceParameterizable):
     """DensityMatrix object."""
 
@@ -469,7 +480,7 @@ class DensityMatrix(DenseState, InplaceParameterizable):
     def replace_parameter(
         self, variable: Parameter, substitute: ExpressionOrSupportsFloat, *, copy: bool = False
     ) -> DensityMatrix:
-        rho = np.vectorize(lambda value: with_parameter(value, variable, substitute))(self.rho)
+        rho = _map_entries(lambda value: with_parameter(value, variable, substitute), self.rho)
         if copy:
             result = _copy.copy(self)
             result.rho = rho
@@ -481,7 +492,7 @@ class DensityMatrix(DenseState, InplaceParameterizable):
     def replace_parameters(
         self, assignment: Mapping[Parameter, ExpressionOrSupportsFloat], *, copy: bool = False
     ) -> DensityMatrix:
-        rho = np.vectorize(lambda value: with_parameters(value, assignment))(self.rho)
+        rho = _map_entries(lambda value: with_parameters(value, assignment), self.rho)
         if copy:
             result = _copy.copy(self)
             result.rho = rho
-- 
2.43.0


From aaae2907bbca1acfccaf3ece2514839366028478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:28 +0000
Subject: [PATCH 29/43] fix: GraphState.apply_vops accepts the identity
 Clifford

---
 graphix/graphsim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphix/graphsim.py b/graphix/graphsim.py
index 8e91292..a9bf016 100644
--- a/graphix/graphsim.py
+++ b/graphix/graphsim.py
@@ -132,6 +132,8 @@ class GraphState(Graph):
         for node, vop in vops.items():
             for lc in reversed(vop.hsz):
                 match lc:
+                    case Clifford.I:
+                        pass
                     case Clifford.Z:
                         self.z(node)
                     case Clifford.H:
-- 
2.43.0


From 606e04df76c851c702e733cf1909b9a39887be42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:28 +0000
Subject: [PATCH 30/43] fix: GraphState.measure_z observes the choice on
 isolated filled nodes

---
 graphix/graphsim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphix/graphsim.py b/graphix/graphsim.py
index a9bf016..131576c 100644
--- a/graphix/graphsim.py
+++ b/graphix/graphsim.py
@@ -462,7 +462,8 @@ class GraphState(Graph):
         if choice:
             for i in self.neighbors(node):
                 self.flip_sign(i)
-        result = choice if not isolated else outcome(self.nodes[node]["sign"])
+        # the outcome is determined only if the node is isolated and hollow
+        result = outcome(self.nodes[node]["sign"]) if isolated == 1 else choice
         self.remove_node(node)
         return result
 
-- 
2.43.0


From f3bb8befb859526bdd6ad7c7b191b557bb371874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:36 +0000
Subject: [PATCH 31/43] fix: GraphState nodes always have their attributes
 (nodes added by edges, attributes passed as keywords)

---
 graphix/graphsim.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/graphix/graphsim.py b/graphix/graphsim.py
index 131576c..0213076 100644
--- a/graphix/graphsim.py
+++ b/graphix/graphsim.py
@@ -85,8 +85,9 @@ class GraphState(Graph):
         nodes_for_adding = list(nodes_for_adding)
         super().add_nodes_from(nodes_for_adding, **attr)  # type: ignore[arg-type]
         for data in nodes_for_adding:
-            u, mp = data if isinstance(data, tuple) else (data, MBQCGraphNode(sign=False, hollow=False, loop=False))
-            for k, v_ in mp.items():
+            u, mp = data if isinstance(data, tuple) else (data, {})
+            attributes = {**MBQCGraphNode(sign=False, hollow=False, loop=False), **attr, **mp}
+            for k, v_ in attributes.items():
                 dst = self.nodes[u]
                 v = bool(v_)
                 # Need to use literal inside brackets
@@ -110,6 +111,12 @@ class GraphState(Graph):
         """Wrap `networkx.Graph.add_node` to initialize MBQCGraphNode attributes."""
         self.add_nodes_from((node_for_adding,), **attr)
 
+    @staticmethod
+    @typing_extensions.override
+    def node_attr_dict_factory() -> dict[str, Any]:  # type: ignore[override]
+        """Return the attributes of the nodes that `networkx.Graph` adds together with edges."""
+        return {"sign": False, "hollow": False, "loop": False}
+
     def local_complement(self, node: int) -> None:
         """Perform local complementation of a graph."""
         g = self.subgraph(self.neighbors(node))
-- 
2.43.0


From d87eb5fa35f4a66c0fb671cbabe31223ae7d326d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:24 +0000
Subject: [PATCH 32/43] fix: GraphState.s on a hollow node with a loop

---
 graphix/graphsim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphix/graphsim.py b/graphix/graphsim.py
index 0213076..537a04c 100644
--- a/graphix/graphsim.py
+++ b/graphix/graphsim.py
@@ -257,6 +257,9 @@ class GraphState(Graph):
                 self.local_complement(node)
                 for i in self.neighbors(node):
                     self.advance(i)
+                if not self.nodes[node]["sign"]:
+                    for i in self.neighbors(node):
+                        self.flip_sign(i)
             else:
                 self.local_complement(node)
                 for i in self.neighbors(node):
-- 
2.43.0


From ef3f0a8c131151d2d642c4016626892fa25484d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:08 +0000
Subject: [PATCH 33/43] fix: graph_to_fusion_network with limited GHZ sizes
 looped forever or returned linear clusters that are not paths

---
 graphix/extraction.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/graphix/extraction.py b/graphix/extraction.py
index eea0dc3..b0201b0 100644
--- a/graphix/extraction.py
+++ b/graphix/extraction.py
@@ -81,6 +81,9 @@ def graph_to_fusion_network(
     list
         List of :class:`ResourceGraph` objects.
     """
+    if max_ghz < 2 or max_lin < 2:
+        raise ValueError("Resource graphs have at least two nodes: max_ghz and max_lin should be at least 2.")
+
     adjdict = {k: dict(copy.deepcopy(v)) for k, v in graph.adjacency()}
 
     number_of_edges = graph.number_of_edges()
@@ -98,7 +101,8 @@ def graph_to_fusion_network(
     # Find GHZ graphs in the graph and remove their edges from the graph.
     # All nodes that have more than 2 edges become the roots of the GHZ clusters.
     for v, _ in sorted(neighbors_list, key=operator.itemgetter(1), reverse=True):
-        if len(adjdict[v]) > 2:
+        # Several clusters can be needed for the same root if their size is limited.
+        while len(adjdict[v]) > 2:
             nodes = [v]
             while len(adjdict[v]) > 0 and len(nodes) < max_ghz:
                 n, _ = adjdict[v].popitem()
-- 
2.43.0


From 25a257a8a6c5ac1e24738825629db800f59253d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:49 +0000
Subject: [PATCH 34/43] fix: pattern_to_str(limit=0) printed commands and a
 wrong number of remaining commands

---
 graphix/pretty_print.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphix/pretty_print.py b/graphix/pretty_print.py
index 8054fba..7e128e6 100644
--- a/graphix/pretty_print.py
+++ b/graphix/pretty_print.py
@@ -315,12 +315,12 @@ def pattern_to_str(
     truncated = limit is not None and len(command_list) > limit
     # Note: The redundant test `limit is not None` is required for mypy
     # to narrow the type of `limit` in the then-branch.
-    short_command_list = command_list[: limit - 1] if limit is not None and truncated else command_list
+    short_command_list = command_list[: max(limit - 1, 0)] if limit is not None and truncated else command_list
     result = separator.join(command_to_str(command, output) for command in short_command_list)
     if output == OutputFormat.LaTeX:
         result = f"\\({result}\\)"
     if limit is not None and truncated:
-        return f"{result}...({len(command_list) - limit + 1} more commands)"
+        return f"{result}...({len(command_list) - len(short_command_list)} more commands)"
     return result
 
 
-- 
2.43.0


From 2df999bd6690ef850ad336ac3f83371a0d167e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:44 +0000
Subject: [PATCH 35/43] fix: copying an MBQCTensorNet shared the map of its
 dangling indices and lost its output nodes

---
 graphix/sim/tensornet.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphix/sim/tensornet.py b/graphix/sim/tensornet.py
index c9f4b3b..ec056e6 100644
--- a/graphix/sim/tensornet.py
+++ b/graphix/sim/tensornet.py
@@ -70,7 +70,9 @@ class MBQCTensorNet(TensorNetwork):
         if ts is None:
             ts = []
         super().__init__(ts=ts, virtual=virtual)
-        self._dangling = ts._dangling if isinstance(ts, MBQCTensorNet) else {}
+        self._dangling = dict(ts._dangling) if isinstance(ts, MBQCTensorNet) else {}
+        if default_output_nodes is None and isinstance(ts, MBQCTensorNet):
+            default_output_nodes = ts.default_output_nodes
         self.default_output_nodes = None if default_output_nodes is None else list(default_output_nodes)
         # prepare the graph state if graph_nodes and graph_edges are given
         if graph_nodes is not None and graph_edges is not None:
-- 
2.43.0


From d5ebf446782d2fb49fdafed7808269d1d4cdd527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:25 +0000
Subject: [PATCH 36/43] fix: MBQCTensorNet.add_qubit and add_qubits rejected
 the states given as vectors

---
 graphix/sim/tensornet.py | 50 ++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/graphix/sim/tensornet.py b/graphix/sim/tensornet.py
index ec056e6..f030988 100644
--- a/graphix/sim/tensornet.py
+++ b/graphix/sim/tensornet.py
@@ -113,27 +113,28 @@ class MBQCTensorNet(TensorNetwork):
         """
         ind = gen_str()
         tag = str(index)
-        match state:
-            case "plus":
-                vec = BasicStates.PLUS.to_statevector_numpy()
-            case "minus":
-                vec = BasicStates.MINUS.to_statevector_numpy()
-            case "zero":
-                vec = BasicStates.ZERO.to_statevector_numpy()
-            case "one":
-                vec = BasicStates.ONE.to_statevector_numpy()
-            case "iplus":
-                vec = BasicStates.PLUS_I.to_statevector_numpy()
-            case "iminus":
-                vec = BasicStates.MINUS_I.to_statevector_numpy()
-            case _:
-                if isinstance(state, str):
+        if isinstance(state, str):
+            match state:
+                case "plus":
+                    vec = BasicStates.PLUS.to_statevector_numpy()
+                case "minus":
+                    vec = BasicStates.MINUS.to_statevector_numpy()
+                case "zero":
+                    vec = BasicStates.ZERO.to_statevector_numpy()
+                case "one":
+                    vec = BasicStates.ONE.to_statevector_numpy()
+                case "iplus":
+                    vec = BasicStates.PLUS_I.to_statevector_numpy()
+                case "iminus":
+                    vec = BasicStates.MINUS_I.to_statevector_numpy()
+                case _:
                     raise TypeError(f"Unknown state: {state}")
-                if state.shape != (2,):
-                    raise ValueError("state must be 2-element np.ndarray")
-                if not np.isclose(np.linalg.norm(state), 1):
-                    raise ValueError("state must be normalized")
-                vec = state
+        else:
+            if state.shape != (2,):
+                raise ValueError("state must be 2-element np.ndarray")
+            if not np.isclose(np.linalg.norm(state), 1):
+                raise ValueError("state must be normalized")
+            vec = state
         tsr = Tensor(vec, [ind], [tag, "Open"])
         self.add_tensor(tsr)
         self._dangling[tag] = ind
@@ -182,13 +183,16 @@ class MBQCTensorNet(TensorNetwork):
             # `states` is of type `PrepareState`, a type alias for
             # `str | npt.NDArray[np.complex128]`. To distinguish
             # between the two cases, we just need to check whether
-            # an element is a character or a complex number.
-            if len(states_list) == 0 or isinstance(states_list[0], SupportsComplex):
+            # an element is a complex number (arrays also satisfy
+            # the protocol `SupportsComplex`).
+            if len(states_list) == 0 or (
+                isinstance(states_list[0], SupportsComplex) and not isinstance(states_list[0], np.ndarray)
+            ):
                 states_iter = [np.array(states_list)] * len(indices)
             else:
 
                 def get_prepare_state(item: PrepareState | SupportsComplex) -> PrepareState:
-                    if isinstance(item, SupportsComplex):
+                    if isinstance(item, SupportsComplex) and not isinstance(item, np.ndarray):
                         raise TypeError("Unexpected complex")
                     return item
 
-- 
2.43.0


From df2efb462d733981d25ba3b4a6b10d7cb9da9f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:04 +0000
Subject: [PATCH 37/43] fix: the tensor-network backend used
 computational-basis probabilities for every measurement of an isolated node

---
 graphix/sim/tensornet.py | 48 +++++++++++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/graphix/sim/tensornet.py b/graphix/sim/tensornet.py
index f030988..72028f7 100644
--- a/graphix/sim/tensornet.py
+++ b/graphix/sim/tensornet.py
@@ -100,6 +100,35 @@ class MBQCTensorNet(TensorNetwork):
         tensor = self.tensor_map[tid]
         return tensor.data.astype(dtype=np.complex128)
 
+    def reduced_density_matrix(self, index: int) -> npt.NDArray[np.complex128]:
+        """Return the (unnormalized) reduced density matrix of a node.
+
+        Only the tensors connected to the node are contracted.
+
+        Parameters
+        ----------
+        index : int
+            node index
+
+        Returns
+        -------
+        numpy.ndarray :
+            2*2 density matrix
+        """
+        ind = self._dangling[str(index)]
+        tids: set[int] = set()
+        pending = set(self.ind_map[ind])
+        while pending:
+            tid = pending.pop()
+            tids.add(tid)
+            for neighbor_ind in self.tensor_map[tid].inds:
+                pending |= set(self.ind_map[neighbor_ind]) - tids
+        ket = TensorNetwork([self.tensor_map[tid] for tid in tids])
+        bra_ind = gen_str()
+        bra = ket.conj().reindex({ind: bra_ind})
+        density = TensorNetwork([ket, bra]).contract(output_inds=[ind, bra_ind])
+        return density.data.astype(dtype=np.complex128)
+
     def add_qubit(self, index: int, state: PrepareState = "plus") -> None:
         """Add a single qubit to the network.
 
@@ -765,10 +794,15 @@ class TensorNetworkBackend(_AbstractTensorNetworkBackend):
         measurement : Measurement
             measure plane and angle
         """
+        bloch = measurement.to_bloch()
+        if isinstance(bloch.angle, Expression):
+            raise TypeError("Parameterized pattern unsupported.")
+        vec = PlanarState(bloch.plane, bloch.angle).to_statevector_numpy()
+        orth_vec = Ops.from_axis(bloch.plane.orth) @ vec
         if node in self._isolated_nodes:
-            vector: npt.NDArray[np.complex128] = self.state.open_tensor(node)
-            probs = (np.abs(vector) ** 2).astype(np.float64)
-            probs /= np.sum(probs)
+            density = self.state.reduced_density_matrix(node)
+            probs = np.array([(v.conj() @ density @ v).real for v in (vec, orth_vec)])
+            probs = np.clip(probs, 0, None) / np.sum(probs)
             result: Outcome = self.branch_selector.measure(node, lambda: probs[0], rng=rng, stacklevel=stacklevel + 1)
             self.results[node] = result
             buffer = 1 / probs[result] ** 0.5
@@ -776,13 +810,7 @@ class TensorNetworkBackend(_AbstractTensorNetworkBackend):
             result = self.branch_selector.measure(node, lambda: 0.5, rng=rng, stacklevel=stacklevel + 1)
             self.results[node] = result
             buffer = 2**0.5
-        bloch = measurement.to_bloch()
-        if isinstance(bloch.angle, Expression):
-            raise TypeError("Parameterized pattern unsupported.")
-        vec = PlanarState(bloch.plane, bloch.angle).to_statevector_numpy()
-        if result:
-            vec = Ops.from_axis(bloch.plane.orth) @ vec
-        proj_vec = vec * buffer
+        proj_vec = (orth_vec if result else vec) * buffer
         self.state.measure_single(node, basis=proj_vec, rng=rng, stacklevel=stacklevel + 1)
         return result
 
-- 
2.43.0


From 98d72a8bc18bd36d9892e314fc4c1b33f43196f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:07 +0000
Subject: [PATCH 38/43] fix: the tensor-network backend asked the branch
 selector twice for each measurement

---
 graphix/sim/tensornet.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/graphix/sim/tensornet.py b/graphix/sim/tensornet.py
index 72028f7..41b0dcb 100644
--- a/graphix/sim/tensornet.py
+++ b/graphix/sim/tensornet.py
@@ -289,6 +289,11 @@ class MBQCTensorNet(TensorNetwork):
                 raise ValueError("Invalid measurement basis.")
         else:
             raise NotImplementedError("Measurement probability calculation not implemented.")
+        self._project_single(index, proj_vec)
+        return result
+
+    def _project_single(self, index: int, proj_vec: npt.NDArray[np.complex128]) -> None:
+        """Project a node on the given vector."""
         old_ind = self._dangling[str(index)]
         proj_ts = Tensor(proj_vec, [old_ind], [str(index), "M", "Close", "ancilla"]).H
         # add the tensor to the network
@@ -296,7 +301,6 @@ class MBQCTensorNet(TensorNetwork):
         tensor = self.tensor_map[tid[0]]
         tensor.retag({"Open": "Close"}, inplace=True)
         self.add_tensor(proj_ts)
-        return result
 
     def prepare_graph_state(self, nodes: Iterable[int], edges: Iterable[tuple[int, int]]) -> None:
         """Prepare the graph state without directly applying CZ gates.
@@ -811,7 +815,7 @@ class TensorNetworkBackend(_AbstractTensorNetworkBackend):
             self.results[node] = result
             buffer = 2**0.5
         proj_vec = (orth_vec if result else vec) * buffer
-        self.state.measure_single(node, basis=proj_vec, rng=rng, stacklevel=stacklevel + 1)
+        self.state._project_single(node, proj_vec)
         return result
 
     @override
-- 
2.43.0


From 19881f222852b3d1d6add3705dbfa507c7bbff34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:53 +0000
Subject: [PATCH 39/43] fix: edges and arrows between nodes drawn closer than
 0.2 vanished or raised IndexError

---
 graphix/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/visualization.py b/graphix/visualization.py
index 10ae8f0..54ab043 100644
--- a/graphix/visualization.py
+++ b/graphix/visualization.py
@@ -1063,7 +1063,7 @@ def _check_path(path: Iterable[_Point], target_node_pos: _Point | None = None) -
             acute = False
     new_path: list[_Point] = path.tolist()
     if target_node_pos is not None:
-        for point in new_path[:-1]:
+        for point in new_path[1:-1]:
             if np.linalg.norm(np.array(point) - np.array(target_node_pos)) < 0.2:
                 new_path.remove(point)
     return new_path
-- 
2.43.0


From a1dc09d44d236d8c458857827747b8402a257151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:53 +0000
Subject: [PATCH 40/43] fix: drawing with node_labels=False displayed the node
 labels

---
 graphix/visualization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphix/visualization.py b/graphix/visualization.py
index 54ab043..45d4316 100644
--- a/graphix/visualization.py
+++ b/graphix/visualization.py
@@ -413,6 +413,8 @@ class GraphVisualizer:
                 fc = PAULI_NODE_FC
             plt.scatter(*self.pos[node], edgecolor=ec, facecolor=fc, s=350, zorder=2, marker=marker)
 
+        if self.options.node_labels is False:
+            return
         labels = dict(self.options.node_labels) if isinstance(self.options.node_labels, Mapping) else None
         fontsize = NODE_LABEL_FS
         if max(self.og.graph.nodes(), default=0) >= 100:
-- 
2.43.0


From 10721c414d5884093a51f36940aed6df7ed35c8f Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 05:34:45 +0000
Subject: [PATCH 41/43] fix: rand_gate and rand_circuit: RZZ in the first
 layer, one-shot iterables

---
 graphix/random_objects.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/graphix/random_objects.py b/graphix/random_objects.py
index c966c4a..e9d8cf3 100644
--- a/graphix/random_objects.py
+++ b/graphix/random_objects.py
@@ -311,9 +311,13 @@ def rand_gate(
         The generated random circuit.
     """
     rng = ensure_rng(rng, stacklevel=stacklevel + 1)
+    pairs = list(pairs)  # traversed once per entangling layer
     circuit = Circuit(nqubits)
     _first_rotation(circuit, nqubits, rng)
-    _entangler(circuit, pairs)
+    if use_rzz:
+        _entangler_rzz(circuit, pairs, rng)
+    else:
+        _entangler(circuit, pairs)
     for _ in range(depth - 1):
         _mid_rotation(circuit, nqubits, rng)
         if use_rzz:
@@ -412,10 +416,11 @@ def rand_circuit(
     """
     rng = ensure_rng(rng, stacklevel=stacklevel + 1)
     circuit = Circuit(nqubits)
+    parameters = list(parameters or [])  # traversed once per kind of rotation
     parametric_gate_choice = (
         functools.partial(rotation, angle=parameter)
         for rotation in (circuit.rx, circuit.ry, circuit.rz)
-        for parameter in parameters or []
+        for parameter in parameters
     )
     gate_choice: tuple[Callable[[int], None], ...] = (
         functools.partial(circuit.ry, angle=ANGLE_PI / 4),
-- 
2.43.0


From 3a9b115bc5888983342b933246cd8be9dd3b0d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:45 +0000
Subject: [PATCH 42/43] fix: XZCorrectionsOrderError: format the message

---
 graphix/flow/exceptions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphix/flow/exceptions.py b/graphix/flow/exceptions.py
index a297880..f8c1f1b 100644
--- a/graphix/flow/exceptions.py
+++ b/graphix/flow/exceptions.py
@@ -280,9 +280,9 @@ class XZCorrectionsOrderError(XZCorrectionsError):
         """Explain the error."""
         match self.reason:
             case XZCorrectionsOrderErrorReason.X:
-                return "The X-correction set {self.node} -> {self.correction_set} is incompatible with the partial order: {self.past_and_present_nodes - {self.node}} ≼ {self.node}."
+                return f"The X-correction set {self.node} -> {self.correction_set} is incompatible with the partial order: {self.past_and_present_nodes - {self.node}} ≼ {self.node}."
             case XZCorrectionsOrderErrorReason.Z:
-                return "The Z-correction set {self.node} -> {self.correction_set} is incompatible with the partial order: {self.past_and_present_nodes - {self.node}} ≼ {self.node}."
+                return f"The Z-correction set {self.node} -> {self.correction_set} is incompatible with the partial order: {self.past_and_present_nodes - {self.node}} ≼ {self.node}."
             case _:
                 assert_never(self.reason)
 
-- 
2.43.0


From 0705de3df4e885a5998dc1c0a067ea43d967baa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:45 +0000
Subject: [PATCH 43/43] fix: parenthesise sums before kets in drawn
 statevectors

---
 graphix/pretty_print.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/graphix/pretty_print.py b/graphix/pretty_print.py
index 7e128e6..b74011e 100644
--- a/graphix/pretty_print.py
+++ b/graphix/pretty_print.py
@@ -4,6 +4,7 @@ from __future__ import annotations
 
 import enum
 import math
+import re
 import string
 from contextvars import ContextVar
 from enum import Enum
@@ -809,7 +810,8 @@ def _ket_str(ket: str, output: OutputFormat) -> str:
 
 def _needs_parentheses(coefficient: str) -> bool:
     """Whether a coefficient is a sum and must be parenthesized before a ket."""
-    return " + " in coefficient or " - " in coefficient
+    # Decimals print sums without spaces: ``0.1235+0.2346i``.
+    return " + " in coefficient or " - " in coefficient or re.search(r"\d[+-]", coefficient) is not None
 
 
 def _factor_uniform_magnitude(
@@ -853,11 +855,13 @@ def _factor_uniform_magnitude(
             value / radius, output, max_denominator=max_denominator, atol=atol, rtol=rtol, precision=precision
         )
         # A per-component phase is unit-modulus, so it is rendered as 1, -1, ±i, an
-        # exponential, or a decimal — never a parenthesizable sum.
+        # exponential, or a (parenthesized) sum such as ``3/5 + 4/5i``.
         if phase == "1":
             term = ket
         elif phase == "-1":
             term = f"-{ket}"
+        elif _needs_parentheses(phase):
+            term = f"({phase}){ket}"
         else:
             term = f"{phase}{ket}"
         if index == 0:
-- 
2.43.0

