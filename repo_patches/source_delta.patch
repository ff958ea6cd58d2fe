From 2a695a71866392946f8eb0f4d5f6feeebbc242c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:27 +0000
Subject: [PATCH 01/56] fix: assign and match task graph wires by port rather
 than by edge insertion order

---
 qermit/clifford_noise_characterisation/ccl.py | 12 +++++
 qermit/taskgraph/task_graph.py                | 45 +++++++++++++------
 2 files changed, 43 insertions(+), 14 deletions(-)

diff --git a/qermit/clifford_noise_characterisation/ccl.py b/qermit/clifford_noise_characterisation/ccl.py
index 259daf9..0b6cbcc 100644
--- a/qermit/clifford_noise_characterisation/ccl.py
+++ b/qermit/clifford_noise_characterisation/ccl.py
@@ -574,6 +574,18 @@ def gen_CDR_MitEx(
             calibration_fraction=kwargs.get("calibration_fraction", 0.5),
         )
     )
+    # correction expects confirmation of calibration on its first wire
+    _post_task_graph.append(
+        MitTask(
+            _label="SwapWires",
+            _n_in_wires=2,
+            _n_out_wires=2,
+            _method=lambda obj, noisy_expectation, complete: (
+                complete,
+                noisy_expectation,
+            ),
+        )
+    )
 
     _experiment_taskgraph.prepend(
         ccl_state_task_gen(
diff --git a/qermit/taskgraph/task_graph.py b/qermit/taskgraph/task_graph.py
index ae65a9d..37d51e2 100644
--- a/qermit/taskgraph/task_graph.py
+++ b/qermit/taskgraph/task_graph.py
@@ -178,10 +178,8 @@ class TaskGraph:
         # schemes so fine
         task_copy = copy(task)
 
-        for i, edge in enumerate(list(self._task_graph.out_edges(self._i, keys=True))):
-            self._task_graph.add_edge(
-                task_copy, edge[1], key=(i, edge[2][1]), data=None
-            )
+        for edge in list(self._task_graph.out_edges(self._i, keys=True)):
+            self._task_graph.add_edge(task_copy, edge[1], key=edge[2], data=None)
             self._task_graph.remove_edge(edge[0], edge[1])
 
         for port in range(task_copy.n_in_wires):
@@ -228,14 +226,24 @@ class TaskGraph:
                         if hasattr(sub_task, "_label"):
                             sub_task._label = task._label + sub_task._label
 
-                    task_in_edges = list(self._task_graph.in_edges(task, keys=True))
-                    task_out_edges = list(self._task_graph.out_edges(task, keys=True))
+                    # edges are matched by port, hence sorted by the port at the
+                    # boundary between the node and the graph around it
+                    task_in_edges = sorted(
+                        self._task_graph.in_edges(task, keys=True),
+                        key=lambda edge: edge[2][1],
+                    )
+                    task_out_edges = sorted(
+                        self._task_graph.out_edges(task, keys=True),
+                        key=lambda edge: edge[2][0],
+                    )
 
-                    task_input_out_edges = list(
-                        task._task_graph.out_edges(task._i, keys=True)
+                    task_input_out_edges = sorted(
+                        task._task_graph.out_edges(task._i, keys=True),
+                        key=lambda edge: edge[2][0],
                     )
-                    task_output_in_edges = list(
-                        task._task_graph.in_edges(task._o, keys=True)
+                    task_output_in_edges = sorted(
+                        task._task_graph.in_edges(task._o, keys=True),
+                        key=lambda edge: edge[2][1],
                     )
 
                     if (
@@ -353,10 +361,15 @@ class TaskGraph:
 
         :return: Data from input edges to output vertex, assigned as wires.
         """
+        # wires are assigned to edges in order of the ports of the input vertex
         for edge, wire in zip(
-            self._task_graph.out_edges(self._i, data=True), input_wires
+            sorted(
+                self._task_graph.out_edges(self._i, data=True, keys=True),
+                key=lambda edge: edge[2][0],
+            ),
+            input_wires,
         ):
-            edge[2]["data"] = wire
+            edge[3]["data"] = wire
 
         # topological_sort fixes any dependency issues so can iterate and assume
         # input wires all realised before a task is reached
@@ -399,9 +412,13 @@ class TaskGraph:
             for _, _, ports, o_data in out_edges:
                 o_data["data"] = outputs[ports[0]]
 
+        # data is returned in order of the ports of the output vertex
         output_wire = [
-            edge[2]["data"]
-            for edge in list(self._task_graph.in_edges(self._o, data=True))
+            edge[3]["data"]
+            for edge in sorted(
+                self._task_graph.in_edges(self._o, data=True, keys=True),
+                key=lambda edge: edge[2][1],
+            )
         ]
         return cast(Tuple[List[Wire]], tuple(output_wire))
 
-- 
2.43.0


From 29cb4d829989ad415aa8194c764b769cad720c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:12 +0000
Subject: [PATCH 02/56] fix: give copied task graphs their own graph and tasks

---
 qermit/taskgraph/task_graph.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/qermit/taskgraph/task_graph.py b/qermit/taskgraph/task_graph.py
index 37d51e2..c754fde 100644
--- a/qermit/taskgraph/task_graph.py
+++ b/qermit/taskgraph/task_graph.py
@@ -70,6 +70,16 @@ class TaskGraph:
         self.characterisation = task_graph.characterisation
         return self
 
+    def __copy__(self) -> "TaskGraph":
+        """
+        A copy holds its own graph and tasks. Without this a copy, and so also
+        a graph added to another one, would change when the original does.
+        """
+        new_task_graph = self.__class__.__new__(self.__class__)
+        new_task_graph.__dict__.update(self.__dict__)
+        new_task_graph._task_graph = deepcopy(self._task_graph)
+        return new_task_graph
+
     @property
     def tasks(self) -> List[MitTask]:
         """
-- 
2.43.0


From 0ff8b7e9ebff942bc960c0e895aa5fe6a7ea39d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:15 +0000
Subject: [PATCH 03/56] fix: list exactly the tasks of MitRes and MitEx graphs
 in TaskGraph.tasks

---
 qermit/taskgraph/task_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qermit/taskgraph/task_graph.py b/qermit/taskgraph/task_graph.py
index c754fde..7b396a6 100644
--- a/qermit/taskgraph/task_graph.py
+++ b/qermit/taskgraph/task_graph.py
@@ -86,7 +86,7 @@ class TaskGraph:
         Returns a list of all tasks with both input and output ports
         in the TaskGraph.
         """
-        return list(self._task_graph)[2:]
+        return [task for task in self._task_graph if task not in (self._i, self._o)]
 
     def __call__(self, input_wires: List[Wire]) -> Tuple[List[Wire]]:
         return self.run(input_wires)
-- 
2.43.0


From 9c596295f3cc325ee3a2b53e33cf887450768c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:09 +0000
Subject: [PATCH 04/56] fix: submit the job when exactly the maximum number of
 shots is requested

---
 qermit/taskgraph/mitres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qermit/taskgraph/mitres.py b/qermit/taskgraph/mitres.py
index 74c473c..cce1a00 100644
--- a/qermit/taskgraph/mitres.py
+++ b/qermit/taskgraph/mitres.py
@@ -344,7 +344,7 @@ def split_shots_task_gen(max_shots: int) -> MitTask:
         for i, circ_shots in enumerate(circuit_wires):
             div_val = circ_shots.Shots // max_shots
             # Divide into jobs of size max_shots
-            if circ_shots.Shots > max_shots:
+            if circ_shots.Shots >= max_shots:
                 split_circuit_wires.extend(
                     [
                         CircuitShots(circ_shots.Circuit, max_shots)
-- 
2.43.0


From d797cc806fdfe89a6e66487d37af7eceea723fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:09 +0000
Subject: [PATCH 05/56] fix: let shot splitting accept an empty list of
 circuits

---
 qermit/taskgraph/mitres.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qermit/taskgraph/mitres.py b/qermit/taskgraph/mitres.py
index cce1a00..a268731 100644
--- a/qermit/taskgraph/mitres.py
+++ b/qermit/taskgraph/mitres.py
@@ -391,7 +391,11 @@ def group_shots_task_gen() -> MitTask:
         """
 
         # A new list of results where some results have been merged.
-        merged_results = []
+        merged_results: List[BackendResult] = []
+
+        # No jobs were run.
+        if len(split_index) == 0:
+            return (merged_results,)
 
         # A list of lists. Each internal list contains results that correspond
         # to the circuit of the same index.
-- 
2.43.0


From 096d0f81896c73328a899e7f96fd4a1407c1a3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:22 +0000
Subject: [PATCH 06/56] fix: keep shots and bits in the same order when merging
 split jobs

---
 qermit/taskgraph/mitres.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/qermit/taskgraph/mitres.py b/qermit/taskgraph/mitres.py
index a268731..9dd9a36 100644
--- a/qermit/taskgraph/mitres.py
+++ b/qermit/taskgraph/mitres.py
@@ -407,13 +407,12 @@ def group_shots_task_gen() -> MitTask:
         # For each circuit, combine the results.
         for chunk in grouped_results:
             # Concatenate shots from all results
-            combined_shots = np.concatenate([result.get_shots() for result in chunk])
-            outcome_array = OutcomeArray.from_readouts(combined_shots)
-            merged_results.append(
-                BackendResult(
-                    shots=outcome_array, c_bits=cast(Sequence[Bit], chunk[0].c_bits)
-                )
+            c_bits = sorted(cast(Sequence[Bit], chunk[0].c_bits))
+            combined_shots = np.concatenate(
+                [result.get_shots(c_bits) for result in chunk]
             )
+            outcome_array = OutcomeArray.from_readouts(combined_shots)
+            merged_results.append(BackendResult(shots=outcome_array, c_bits=c_bits))
 
         return (merged_results,)
 
-- 
2.43.0


From edd4a1a3a94f9f3e9c70c531e21900cb2f5d6a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:06 +0000
Subject: [PATCH 07/56] fix: keep counts and bits in the same order when
 merging frame randomisation results

---
 qermit/frame_randomisation/frame_randomisation.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/qermit/frame_randomisation/frame_randomisation.py b/qermit/frame_randomisation/frame_randomisation.py
index 6a2f01e..012986f 100644
--- a/qermit/frame_randomisation/frame_randomisation.py
+++ b/qermit/frame_randomisation/frame_randomisation.py
@@ -135,18 +135,15 @@ def frame_randomisation_result_task_gen(samples: int) -> MitTask:
         ]
         results = []
         for chunk in chunked_results:
-            all_counts = [result.get_counts() for result in chunk]
+            c_bits = sorted(cast(Sequence[Bit], chunk[0].c_bits))
+            all_counts = [result.get_counts(c_bits) for result in chunk]
             combined_counts = reduce(operator.add, all_counts)
             outcome_array = {
                 OutcomeArray.from_readouts([key]): val
                 for key, val in combined_counts.items()
             }
             outcome_counts = Counter(outcome_array)
-            results.append(
-                BackendResult(
-                    counts=outcome_counts, c_bits=cast(Sequence[Bit], chunk[0].c_bits)
-                )
-            )
+            results.append(BackendResult(counts=outcome_counts, c_bits=c_bits))
         return (results,)
 
     return MitTask(
-- 
2.43.0


From 99c4b88a133170861b7740eccd830db72b84b154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:37 +0000
Subject: [PATCH 08/56] fix: do not share the default operator between
 ObservableTracker objects

---
 qermit/taskgraph/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qermit/taskgraph/utils.py b/qermit/taskgraph/utils.py
index 8c88520..624b817 100644
--- a/qermit/taskgraph/utils.py
+++ b/qermit/taskgraph/utils.py
@@ -222,7 +222,7 @@ class ObservableTracker:
     QubitPauliString in a given QubitPauliOperator.
     """
 
-    def __init__(self, qubit_pauli_operator: QubitPauliOperator = QubitPauliOperator()):
+    def __init__(self, qubit_pauli_operator: Optional[QubitPauliOperator] = None):
         """
         Default constructor, creates an empty dict object for mapping QubitPauliStrings to measurement circuits
         and the qubits measured to get expectation, along with an empty list for storing measurement circuits and
@@ -230,7 +230,10 @@ class ObservableTracker:
 
         :param qubit_pauli_operator: QubitPauliOperator for which given ObservableTracker is expected
             to retain measurement circuits all QubitPauliString keys for before any Backend execution.
+            Default none, giving a new empty operator.
         """
+        if qubit_pauli_operator is None:
+            qubit_pauli_operator = QubitPauliOperator()
         self._qubit_pauli_operator = qubit_pauli_operator
         # indices being index in measurement circuits
         self._qps_to_indices: Dict[
-- 
2.43.0


From 73cca6a55d101b406b4e81c2cb86eb7c018b103f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:39 +0000
Subject: [PATCH 09/56] fix: track the strings added by
 ObservableTracker.extend_operator

---
 qermit/taskgraph/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qermit/taskgraph/utils.py b/qermit/taskgraph/utils.py
index 624b817..f3aa21e 100644
--- a/qermit/taskgraph/utils.py
+++ b/qermit/taskgraph/utils.py
@@ -305,6 +305,8 @@ class ObservableTracker:
         :param new_operator: Each QubitPauliString and coefficient added to held operator.
         """
         self._qubit_pauli_operator += new_operator
+        for k in new_operator._dict.keys():
+            self._qps_to_indices.setdefault(k, list())
 
     def remove_strings(self, strings: List[QubitPauliString]):
         """
-- 
2.43.0


From 219966ef76fc9a0fda42e1ebaba8d45b0034783e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:52 +0000
Subject: [PATCH 10/56] fix: copy the operator and indices in
 ObservableTracker.from_ObservableTracker

---
 qermit/taskgraph/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/qermit/taskgraph/utils.py b/qermit/taskgraph/utils.py
index f3aa21e..f9ebc64 100644
--- a/qermit/taskgraph/utils.py
+++ b/qermit/taskgraph/utils.py
@@ -14,7 +14,7 @@
 
 
 from collections import OrderedDict
-from copy import copy
+from copy import copy, deepcopy
 from typing import Dict, Iterable, List, Optional, Tuple, Union
 
 from numpy import ndarray
@@ -255,9 +255,11 @@ class ObservableTracker:
         # these variables could be mutated in the first ObservableTracker and effect
         # this one
         # To fix, copy everything
-        new_obj = ObservableTracker(copy(to_copy._qubit_pauli_operator))
+        new_obj = ObservableTracker(deepcopy(to_copy._qubit_pauli_operator))
 
-        new_obj._qps_to_indices = copy(to_copy._qps_to_indices)
+        new_obj._qps_to_indices = {
+            string: copy(indices) for string, indices in to_copy._qps_to_indices.items()
+        }
         new_obj._measurement_circuits = copy(to_copy._measurement_circuits)
         new_obj._partitions = copy(to_copy._partitions)
         return new_obj
-- 
2.43.0


From 6589cb04c300333e2780c7832e21afafd63c65e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:30 +0000
Subject: [PATCH 11/56] fix: invert gates without the circuit's implicit
 permutation when folding gates

---
 qermit/zero_noise_extrapolation/zne.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/qermit/zero_noise_extrapolation/zne.py b/qermit/zero_noise_extrapolation/zne.py
index c075b35..b727228 100644
--- a/qermit/zero_noise_extrapolation/zne.py
+++ b/qermit/zero_noise_extrapolation/zne.py
@@ -273,6 +273,11 @@ class Folding(Enum):
         command_circ_dict = {
             key: val for key, val in c_dict.items() if key != "commands"
         }
+        # The implicit permutation is that of the whole circuit, and so does not
+        # apply to the circuits which contain only one command.
+        command_circ_dict["implicit_permutation"] = [
+            [qubit.to_list(), qubit.to_list()] for qubit in circ.qubits
+        ]
 
         folded_command_list = []
         # For each command, fold the appropriate number of times.
@@ -339,6 +344,11 @@ class Folding(Enum):
         command_circ_dict = {
             key: val for key, val in c_dict.items() if key != "commands"
         }
+        # The implicit permutation is that of the whole circuit, and so does not
+        # apply to the circuits which contain only one command.
+        command_circ_dict["implicit_permutation"] = [
+            [qubit.to_list(), qubit.to_list()] for qubit in circ.qubits
+        ]
 
         for command in c_dict["commands"]:
             # Barriers are added to the circuit but otherwise effectively
-- 
2.43.0


From 6ed130104d6e9bb38b4bddc455279505adf606a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:30 +0000
Subject: [PATCH 12/56] fix: do not lose a fold to floating point error when
 scaling noise exactly

---
 qermit/zero_noise_extrapolation/zne.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qermit/zero_noise_extrapolation/zne.py b/qermit/zero_noise_extrapolation/zne.py
index b727228..2e104da 100644
--- a/qermit/zero_noise_extrapolation/zne.py
+++ b/qermit/zero_noise_extrapolation/zne.py
@@ -167,7 +167,8 @@ class Folding(Enum):
         fold_frac = ((noise_scaling - 1) % 2) / 2
         to_fold = np.random.choice(
             list(num_folds_dict.keys()),
-            size=int(len(num_folds_dict.keys()) * fold_frac),
+            # Rounding removes floating point errors, which would otherwise lose a fold.
+            size=int(round(len(num_folds_dict.keys()) * fold_frac, 6)),
             replace=False,
         )
         for i in to_fold:
@@ -248,7 +249,8 @@ class Folding(Enum):
         # Calculate the number of gates that need to be folded. Note that only
         # non barrier commands should be folded so only these are counted.
         num_additional_commands = (noise_scaling - 1) * num_non_barrier_commands
-        num_folded_commands = int(num_additional_commands // 2)
+        # Rounding removes floating point errors, which would otherwise lose a fold.
+        num_folded_commands = int(round(num_additional_commands, 6) // 2)
 
         true_noise_scaling = 1 + ((num_folded_commands * 2) / num_non_barrier_commands)
         # This check isolates the case where the noise folding that can be achieved is different
-- 
2.43.0


From 6fb0a3e69d57ee39ef45db8e51bc6aac914daa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:55 +0000
Subject: [PATCH 13/56] fix: keep the implicit permutation, phase and bits in
 two qubit gate folding

---
 qermit/zero_noise_extrapolation/zne.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/qermit/zero_noise_extrapolation/zne.py b/qermit/zero_noise_extrapolation/zne.py
index 2e104da..e0f1fb4 100644
--- a/qermit/zero_noise_extrapolation/zne.py
+++ b/qermit/zero_noise_extrapolation/zne.py
@@ -188,29 +188,31 @@ class Folding(Enum):
                 "in the compiled circuit, and i is an integer."
             )
 
-        # Copy qubit register of original circuit.
-        folded_circuit = Circuit()
-        for qubit in circ.qubits:
-            folded_circuit.add_qubit(qubit)
+        # Copy registers, phase and implicit permutation of original circuit.
+        folded_circuit = Circuit.from_dict({**circ.to_dict(), "commands": []})
+        unit_map: Dict[UnitID, UnitID] = {bit: bit for bit in circ.bits}
+        unit_map.update(circ.implicit_qubit_permutation())
 
         for i, gate in enumerate(circ.get_commands()):
+            # Gates are added at the outputs of the implicit permutation.
+            args = [unit_map[arg] for arg in gate.args]
             # Barriers are not folded and added as given.
             if gate.op.type == OpType.Barrier:
-                folded_circuit.add_barrier(gate.args)
+                folded_circuit.add_barrier(args)
             # Boxes are not supported.
             elif gate.op.type in box_types:
                 raise RuntimeError("Box types not supported when folding.")
             # 2 qubit gates are folded.
             elif len(gate.qubits) == 2:
-                folded_circuit.add_gate(gate.op, gate.args)
+                folded_circuit.add_gate(gate.op, args)
                 for _ in range(num_folds_dict[i]):
-                    folded_circuit.add_barrier(gate.args)
-                    folded_circuit.add_gate(gate.op.dagger, gate.args)
-                    folded_circuit.add_barrier(gate.args)
-                    folded_circuit.add_gate(gate.op, gate.args)
+                    folded_circuit.add_barrier(args)
+                    folded_circuit.add_gate(gate.op.dagger, args)
+                    folded_circuit.add_barrier(args)
+                    folded_circuit.add_gate(gate.op, args)
             # All other gates are added as given.
             else:
-                folded_circuit.add_gate(gate.op, gate.args)
+                folded_circuit.add_gate(gate.op, args)
 
         return [folded_circuit]
 
-- 
2.43.0


From c8b71c0516b44415fd88eeca8430e63abc3a0d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:55 +0000
Subject: [PATCH 14/56] fix: keep the registers, implicit permutation and phase
 when adding Pauli errors

---
 qermit/noise_model/pauli_error_transpile.py | 22 +++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/qermit/noise_model/pauli_error_transpile.py b/qermit/noise_model/pauli_error_transpile.py
index 2c39844..53fbd6d 100644
--- a/qermit/noise_model/pauli_error_transpile.py
+++ b/qermit/noise_model/pauli_error_transpile.py
@@ -1,8 +1,9 @@
-from typing import cast
+from typing import Dict, cast
 
 from pytket import Circuit, OpType, Qubit
 from pytket.passes import BasePass, CustomPass
 from pytket.pauli import Pauli
+from pytket.unit_id import UnitID
 
 from .noise_model import NoiseModel
 
@@ -23,27 +24,28 @@ def PauliErrorTranspile(noise_model: NoiseModel) -> BasePass:
         :return: Circuit with additional noise operations.
         """
 
-        # Initialise circuit with the same registers as input.
-        noisy_circuit = Circuit()
-        for q_register in circuit.q_registers:
-            noisy_circuit.add_q_register(q_register)
-        for c_register in circuit.c_registers:
-            noisy_circuit.add_c_register(c_register)
+        # Initialise circuit with the same registers, phase and implicit
+        # permutation as input.
+        noisy_circuit = Circuit.from_dict({**circuit.to_dict(), "commands": []})
+        unit_map: Dict[UnitID, UnitID] = {bit: bit for bit in circuit.bits}
+        unit_map.update(circuit.implicit_qubit_permutation())
 
         # Add each command in the original circuit,
         # and a pauli error if appropriate.
         for command in circuit.get_commands():
+            # Commands are added at the outputs of the implicit permutation.
+            args = [unit_map[arg] for arg in command.args]
             if command.op.type == OpType.Barrier:
-                noisy_circuit.add_barrier(command.args)
+                noisy_circuit.add_barrier(args)
             else:
-                noisy_circuit.add_gate(command.op, command.args)
+                noisy_circuit.add_gate(command.op, args)
 
             # If command has noise model defined, add a random error
             if command.op.type in noise_model.noisy_gates:
                 # Sample a random error, which may be None
                 error = noise_model.get_error_distribution(command.op.type).sample()
                 if error is not None:
-                    for qubit, pauli in zip(command.args, error):
+                    for qubit, pauli in zip(args, error):
                         if pauli in [Pauli.X, OpType.X]:
                             noisy_circuit.X(cast(Qubit, qubit), opgroup="noisy")
                         elif pauli in [Pauli.Z, OpType.Z]:
-- 
2.43.0


From bf98f9c54d91bfe24a47ec0e800c585e17ab18f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:55 +0000
Subject: [PATCH 15/56] fix: refuse polynomial fits of degree too high for the
 data

---
 qermit/zero_noise_extrapolation/zne.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qermit/zero_noise_extrapolation/zne.py b/qermit/zero_noise_extrapolation/zne.py
index e0f1fb4..9272dbf 100644
--- a/qermit/zero_noise_extrapolation/zne.py
+++ b/qermit/zero_noise_extrapolation/zne.py
@@ -577,7 +577,7 @@ class Fit(Enum):
         """
 
         # Raised if the degree of the polynomial requested is negative, or too high to fit the data to
-        if (deg > len(x)) or (deg < 0):
+        if (deg >= len(x)) or (deg < 0):
             raise ValueError(
                 "The degree of the polynomial must be positive and can be at most m-1, where m is the number of data points."
             )
-- 
2.43.0


From fd36ff11dd6a3fffc8a5509fae94a269eb9e8d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:30 +0000
Subject: [PATCH 16/56] fix: convert error distributions with negligible rates
 or an identity entry to PTMs

---
 qermit/noise_model/noise_model.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/qermit/noise_model/noise_model.py b/qermit/noise_model/noise_model.py
index 943d14b..6cdd4a4 100644
--- a/qermit/noise_model/noise_model.py
+++ b/qermit/noise_model/noise_model.py
@@ -145,7 +145,18 @@ class ErrorDistribution:
                 + "Please report this as an issue."
             )
 
-        if not self == ErrorDistribution.from_ptm(ptm=ptm, pauli_index=pauli_index):
+        # The identity, and errors with negligible rates, are not recovered by
+        # from_ptm, and so the rates are compared rather than the errors present.
+        recovered = ErrorDistribution.from_ptm(ptm=ptm, pauli_index=pauli_index)
+        if not all(
+            math.isclose(
+                self.distribution.get(error, 0),
+                recovered.distribution.get(error, 0),
+                abs_tol=0.01,
+            )
+            for error in pauli_index
+            if error != identity
+        ):
             raise Exception(
                 "From PTM does not match to PTM. "
                 + "This is a fault in Qermit. "
-- 
2.43.0


From 3d7ac67d74243cd8c531ec66bf54723280a01b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:30 +0000
Subject: [PATCH 17/56] fix: let error distributions without errors be scaled

---
 qermit/noise_model/noise_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qermit/noise_model/noise_model.py b/qermit/noise_model/noise_model.py
index 6cdd4a4..e2ca281 100644
--- a/qermit/noise_model/noise_model.py
+++ b/qermit/noise_model/noise_model.py
@@ -407,6 +407,10 @@ class ErrorDistribution:
         :return: A new error distribution with the noise scaled.
         """
 
+        # With no errors there is nothing to scale.
+        if not self.distribution:
+            return ErrorDistribution(distribution={})
+
         ptm, pauli_index = self.to_ptm()
         scaled_ptm = fractional_matrix_power(ptm, scaling_factor)
         return ErrorDistribution.from_ptm(ptm=scaled_ptm, pauli_index=pauli_index)
-- 
2.43.0


From 695edc3a74f3d4c7e0315d358db2676696a21e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:22 +0000
Subject: [PATCH 18/56] fix: account for implicit permutations when commuting
 Paulis through circuits

---
 qermit/noise_model/noise_model.py  |  5 +++++
 qermit/noise_model/qermit_pauli.py | 23 ++++++++++++++++++++++-
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/qermit/noise_model/noise_model.py b/qermit/noise_model/noise_model.py
index e2ca281..c33eba4 100644
--- a/qermit/noise_model/noise_model.py
+++ b/qermit/noise_model/noise_model.py
@@ -733,4 +733,9 @@ class NoiseModel:
                     qubits=cast(List[Qubit], command.args),
                 )
 
+        # The commands do not account for the implicit permutation at the
+        # end of the circuit.
+        if direction == Direction.forward:
+            pauli_error.apply_permutation(cliff_circ.implicit_qubit_permutation())
+
         return pauli_error
diff --git a/qermit/noise_model/qermit_pauli.py b/qermit/noise_model/qermit_pauli.py
index 2b16823..d2c2a2f 100644
--- a/qermit/noise_model/qermit_pauli.py
+++ b/qermit/noise_model/qermit_pauli.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from typing import List
+from typing import Dict, List
 
 from pytket.circuit import Circuit, Op, OpType, Qubit
 from pytket.pauli import Pauli, QubitPauliString, QubitPauliTensor, pauli_string_mult
@@ -130,6 +130,27 @@ class QermitPauli:
                 qubits=command.qubits,
             )
 
+        self.apply_permutation(circuit.implicit_qubit_permutation())
+
+    def apply_permutation(self, permutation: Dict[Qubit, Qubit]) -> None:
+        """Relabel the qubits on which the Pauli acts, as for example is
+        required by the implicit permutation of a circuit.
+
+        :param permutation: Map from qubits to their new labels. Qubits
+            which are not included are unchanged.
+        """
+        qubit_pauli_tensor = self.qubit_pauli_tensor
+        self.input_pauli_tensor = QubitPauliTensor(
+            string=QubitPauliString(
+                map={
+                    self.qubit_index[permutation.get(qubit, qubit)]: pauli
+                    for qubit, pauli in qubit_pauli_tensor.string.map.items()
+                }
+            ),
+            coeff=qubit_pauli_tensor.coeff,
+        )
+        self.unitary_tableau = UnitaryTableau(nqb=len(self.qubit_list))
+
     def apply_gate(self, op: Op, qubits: List[Qubit]) -> None:
         """Commute the Pauli through the gate.
         Given a Clifford gate G, transform the Pauli P to Q
-- 
2.43.0


From 1a2e01b1e6ee472f4fe8664d1e8e5cdf7a7026c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:34 +0000
Subject: [PATCH 19/56] fix: respect the order of operations on bits when
 boxing Clifford subcircuits

---
 .../box_clifford_subcircuits.py               | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/qermit/coherent_pauli_checks/box_clifford_subcircuits.py b/qermit/coherent_pauli_checks/box_clifford_subcircuits.py
index 093c90b..b2be2d6 100644
--- a/qermit/coherent_pauli_checks/box_clifford_subcircuits.py
+++ b/qermit/coherent_pauli_checks/box_clifford_subcircuits.py
@@ -1,5 +1,5 @@
 import networkx as nx  # type: ignore
-from pytket._tket.unit_id import Qubit
+from pytket._tket.unit_id import Qubit, UnitID
 from pytket.circuit import CircBox, Circuit, Command, OpType
 from pytket.passes import BasePass, CustomPass
 
@@ -84,22 +84,22 @@ def _circuit_to_graph(circuit: Circuit) -> tuple[nx.DiGraph, list[Command]]:
     :return: Tuple of graph and list of commands. Nodes are indexes
         in the list of commands.
     """
-    # Lists the most recent node to act on a particular qubits. If a
-    # new gate is found to act on that qubit then an edge between the
+    # Lists the most recent node to act on a particular qubit or bit. If a
+    # new gate is found to act on that qubit or bit then an edge between the
     # node which corresponds to the new gate and the node which
-    # most recently acted on that qubit is added. This builds a DAG
+    # most recently acted on that qubit or bit is added. This builds a DAG
     # showing the temporal order of gates.
     node_command = circuit.get_commands()
-    current_node: dict[Qubit, int] = {}
+    current_node: dict[UnitID, int] = {}
     dag = nx.DiGraph()
     for node, command in enumerate(node_command):
         dag.add_node(node)
-        for qubit in command.qubits:
-            # This if statement is used in case the qubit has not been
+        for unit in command.args:
+            # This if statement is used in case the unit has not been
             # acted on yet.
-            if qubit in current_node.keys():
-                dag.add_edge(current_node[qubit], node)
-            current_node[qubit] = node
+            if unit in current_node.keys():
+                dag.add_edge(current_node[unit], node)
+            current_node[unit] = node
 
     return dag, node_command
 
-- 
2.43.0


From c490ca3bb5d1403c63bb00be7138739794d6fa51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:36 +0000
Subject: [PATCH 20/56] fix: keep the name, operation groups and implicit
 permutation when boxing Clifford subcircuits

---
 .../box_clifford_subcircuits.py               | 34 +++++++++++--------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/qermit/coherent_pauli_checks/box_clifford_subcircuits.py b/qermit/coherent_pauli_checks/box_clifford_subcircuits.py
index b2be2d6..2f14f59 100644
--- a/qermit/coherent_pauli_checks/box_clifford_subcircuits.py
+++ b/qermit/coherent_pauli_checks/box_clifford_subcircuits.py
@@ -184,13 +184,11 @@ def _box_clifford_transform(circuit: Circuit) -> Circuit:
     # List indicating if a command has been implemented
     implemented_commands = [False] * len(node_command)
 
-    # Initialise new circuit
-    clifford_box_circuit = Circuit()
-    for qubit in circuit.qubits:
-        clifford_box_circuit.add_qubit(qubit)
-    for bit in circuit.bits:
-        clifford_box_circuit.add_bit(bit)
-    clifford_box_circuit.add_phase(circuit.phase)
+    # Initialise new circuit with the same name, units, phase and implicit
+    # permutation. Commands are added at the outputs of the permutation.
+    clifford_box_circuit = Circuit.from_dict({**circuit.to_dict(), "commands": []})
+    unit_map: dict[UnitID, UnitID] = {bit: bit for bit in circuit.bits}
+    unit_map.update(circuit.implicit_qubit_permutation())
 
     while not all(implemented_commands):
         # Search for a subcircuit that it is safe to implement, and
@@ -281,25 +279,33 @@ def _box_clifford_transform(circuit: Circuit) -> Circuit:
             clifford_circ_box = CircBox(clifford_subcircuit)
             clifford_box_circuit.add_circbox(
                 clifford_circ_box,
-                list(sub_circuit_qubits[sub_circuit_to_implement]),
+                [
+                    unit_map[qubit]
+                    for qubit in sub_circuit_qubits[sub_circuit_to_implement]
+                ],
             )
 
         # Otherwise, add the gates straight to the circuit
         else:
             assert len(node_to_implement_list) == 1
 
-            if node_command[node_to_implement_list[0]].op.type == OpType.Barrier:
+            command = node_command[node_to_implement_list[0]]
+            args = [unit_map[arg] for arg in command.args]
+
+            if command.op.type == OpType.Barrier:
                 clifford_box_circuit.add_barrier(
-                    units=node_command[node_to_implement_list[0]].args,
-                    data=node_command[node_to_implement_list[0]].op.data,  # type: ignore
+                    units=args,
+                    data=command.op.data,  # type: ignore
                 )
 
-            else:
+            elif command.opgroup is not None:
                 clifford_box_circuit.add_gate(
-                    node_command[node_to_implement_list[0]].op,
-                    node_command[node_to_implement_list[0]].args,
+                    command.op, args, opgroup=command.opgroup
                 )
 
+            else:
+                clifford_box_circuit.add_gate(command.op, args)
+
             implemented_commands[node_to_implement_list[0]] = True
 
     return clifford_box_circuit
-- 
2.43.0


From b97beae71ff70a2cd31ff7344992b5d944d922e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:04 +0000
Subject: [PATCH 21/56] fix: end the Pauli checks of every Clifford subcircuit
 at which they are started

---
 qermit/coherent_pauli_checks/pauli_sampler.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/qermit/coherent_pauli_checks/pauli_sampler.py b/qermit/coherent_pauli_checks/pauli_sampler.py
index b77d3ea..211df34 100644
--- a/qermit/coherent_pauli_checks/pauli_sampler.py
+++ b/qermit/coherent_pauli_checks/pauli_sampler.py
@@ -52,8 +52,7 @@ class PauliSampler(ABC):
         # Add each command in the circuit, wrapped by checks
         # if the command is a circbox named 'Clifford Subcircuit'
         for command in circuit.get_commands():
-            # Add barriers and check if appropriate
-            if (
+            is_clifford_subcircuit = (
                 (command.op.type == OpType.CircBox)
                 and (cast(CircBox, command.op).get_circuit().name is not None)
                 and (
@@ -61,7 +60,10 @@ class PauliSampler(ABC):
                         "Clifford Subcircuit"
                     )
                 )
-            ):
+            )
+
+            # Add barriers and check if appropriate
+            if is_clifford_subcircuit:
                 clifford_subcircuit = self._decompose_clifford_subcircuit_box(command)
 
                 # List of Paulis to be used as checks before the subcircuit.
@@ -108,9 +110,7 @@ class PauliSampler(ABC):
             pauli_check_circuit.add_gate(command.op, command.args)
 
             # Add barriers and checks if appropriate.
-            if (command.op.type == OpType.CircBox) and (
-                cast(CircBox, command.op).get_circuit().name == "Clifford Subcircuit"
-            ):
+            if is_clifford_subcircuit:
                 # For each check, commute the pauli through
                 # the clifford circuit.
                 for end_stabiliser, control_qubit in zip(
-- 
2.43.0


From 324f2b0bc242f80ccf1f5a36d60f9f2f8417fa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:22 +0000
Subject: [PATCH 22/56] fix: commute Pauli checks through the implicit
 permutation of Clifford subcircuits

---
 qermit/coherent_pauli_checks/pauli_sampler.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/qermit/coherent_pauli_checks/pauli_sampler.py b/qermit/coherent_pauli_checks/pauli_sampler.py
index 211df34..e174972 100644
--- a/qermit/coherent_pauli_checks/pauli_sampler.py
+++ b/qermit/coherent_pauli_checks/pauli_sampler.py
@@ -116,17 +116,10 @@ class PauliSampler(ABC):
                 for end_stabiliser, control_qubit in zip(
                     reversed(end_stabiliser_list), reversed(control_qubit_list)
                 ):
-                    for clifford_command in clifford_subcircuit.get_commands():
-                        if clifford_command.op.type == OpType.Barrier:
-                            continue
-
-                        # TODO: an error would be raised here if clifford_command
-                        # is not Clifford. It could be worth raising a clearer
-                        # error.
-                        end_stabiliser.apply_gate(
-                            op=clifford_command.op,
-                            qubits=clifford_command.qubits,
-                        )
+                    # TODO: an error would be raised here if clifford_subcircuit
+                    # is not Clifford. It could be worth raising a clearer
+                    # error.
+                    end_stabiliser.apply_circuit(clifford_subcircuit)
 
                     pauli_check_circuit.add_barrier(command.args + [control_qubit])
 
-- 
2.43.0


From 5272cc1cc1713932560e3c2fb6c98319d2753d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:22 +0000
Subject: [PATCH 23/56] fix: keep the implicit permutation and phase when
 adding Pauli checks

---
 qermit/coherent_pauli_checks/pauli_sampler.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/qermit/coherent_pauli_checks/pauli_sampler.py b/qermit/coherent_pauli_checks/pauli_sampler.py
index e174972..3444ad9 100644
--- a/qermit/coherent_pauli_checks/pauli_sampler.py
+++ b/qermit/coherent_pauli_checks/pauli_sampler.py
@@ -149,7 +149,18 @@ class PauliSampler(ABC):
                         bit=measure_bit,
                     )
 
-        return pauli_check_circuit, postselect_bits
+        # The commands do not account for the phase and implicit permutation of
+        # the circuit.
+        circuit_dict = circuit.to_dict()
+        pauli_check_circuit_dict = pauli_check_circuit.to_dict()
+        pauli_check_circuit_dict["phase"] = circuit_dict["phase"]
+        pauli_check_circuit_dict["implicit_permutation"] = [
+            [qubit, qubit]
+            for qubit, _ in pauli_check_circuit_dict["implicit_permutation"]
+            if qubit not in circuit_dict["qubits"]
+        ] + circuit_dict["implicit_permutation"]
+
+        return Circuit.from_dict(pauli_check_circuit_dict), postselect_bits
 
     @staticmethod
     def _decompose_clifford_subcircuit_box(clifford_subcircuit_box: Command) -> Circuit:
-- 
2.43.0


From 7d1c90944da6ff257ff9530ea6ca0b73af9171ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:20 +0000
Subject: [PATCH 24/56] fix: add Pauli checks to circuits with barriers

---
 qermit/coherent_pauli_checks/pauli_sampler.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/qermit/coherent_pauli_checks/pauli_sampler.py b/qermit/coherent_pauli_checks/pauli_sampler.py
index 3444ad9..101e9de 100644
--- a/qermit/coherent_pauli_checks/pauli_sampler.py
+++ b/qermit/coherent_pauli_checks/pauli_sampler.py
@@ -107,7 +107,13 @@ class PauliSampler(ABC):
                 ]
 
             # Add original command
-            pauli_check_circuit.add_gate(command.op, command.args)
+            if command.op.type == OpType.Barrier:
+                pauli_check_circuit.add_barrier(
+                    units=command.args,
+                    data=command.op.data,  # type: ignore
+                )
+            else:
+                pauli_check_circuit.add_gate(command.op, command.args)
 
             # Add barriers and checks if appropriate.
             if is_clifford_subcircuit:
-- 
2.43.0


From 41654609bc6ec9dcb099c199eb37fe214b3b07ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:22 +0000
Subject: [PATCH 25/56] fix: keep unused bits when adding leakage detection
 gadgets

---
 qermit/leakage_detection/leakage_detection.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/qermit/leakage_detection/leakage_detection.py b/qermit/leakage_detection/leakage_detection.py
index cc3b8d0..05517f2 100644
--- a/qermit/leakage_detection/leakage_detection.py
+++ b/qermit/leakage_detection/leakage_detection.py
@@ -47,6 +47,15 @@ def gen_add_leakage_gadget_circuit_task(backend: Backend) -> MitTask:
             for circuit_shots in circuit_shots_list
         ]
 
+        # Bits which are not used are removed when the gadget is added. They
+        # are returned so that they appear in the results.
+        for orig_circuit, detection_circuit in zip(
+            circuit_shots_list, detection_circuit_shots_list
+        ):
+            for bit in orig_circuit.Circuit.bits:
+                if bit not in detection_circuit.Circuit.bits:
+                    detection_circuit.Circuit.add_bit(bit)
+
         # For each circuit create a postselection manager. These may be
         # different for each circuit, if for example the circuits are of
         # different sizes.
-- 
2.43.0


From 9eaae8138d0c9eebd26f72d79d235ff81c75911c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:20 +0000
Subject: [PATCH 26/56] fix: order outcomes as the characterisation matrices in
 SPAM correction

---
 qermit/spam/full_transition_tomography.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/qermit/spam/full_transition_tomography.py b/qermit/spam/full_transition_tomography.py
index 0f14950..cea4dec 100644
--- a/qermit/spam/full_transition_tomography.py
+++ b/qermit/spam/full_transition_tomography.py
@@ -506,12 +506,15 @@ def correct_transition_noise(
     # if qubit in subset has no bit, skip it
     char_bits_order = []
     unused_final_qbs = []
-    for subset in noise_characterisation.CorrelatedNodes:
-        for q in subset:
-            if q in final_measures_qb_map:
-                char_bits_order.append(final_measures_qb_map[q])
-            else:
-                unused_final_qbs.append(q)
+    # the matrices are not necessarily in the order of the correlated subsets
+    for q in sorted(
+        (q for subset in noise_characterisation.CorrelatedNodes for q in subset),
+        key=lambda q: noise_characterisation.NodeToIntDict[q],
+    ):
+        if q in final_measures_qb_map:
+            char_bits_order.append(final_measures_qb_map[q])
+        else:
+            unused_final_qbs.append(q)
 
     mid_measure_qbs = []
     for bit in mid_circuit_measures_bq_map:
-- 
2.43.0


From 21c3ced59e58e7dd09eb81fe29bdd3844a06d1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:18 +0000
Subject: [PATCH 27/56] fix: apply the CX layers of random Clifford circuits

---
 .../cliff_circuit_gen.py                             | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py b/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py
index 8b4e4ed..b7d338a 100644
--- a/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py
+++ b/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py
@@ -72,11 +72,11 @@ def clifford_canonical_F(
 
     :param pauli_layer: Description of which Pauli gate should act on each qubits. This is an element of {0,1,2,3}^n
     with 0 -> I, 1->X, 2->Y, 3->Z.
-    :param gamma: Describes on which qubits CX acts. In particular the circuit contains CX_{i,j} if
-    gamma[i][j]=1. The gates are ordered such the control qubit index increases with time.
-    :param delta: Describes on which qubits CZ acts. In particular the circuit contains CX_{i,j} if
-    delta[i][j]=1. The gates are ordered such the control qubit index increases with time. The circuit include S_i
-    if delta[i][i]=1.
+    :param gamma: Symmetric matrix describing on which qubits CZ and S act. In particular the circuit contains
+    CZ_{i,j} if gamma[i][j]=1, and S_i if gamma[i][i]=1.
+    :param delta: Lower triangular matrix describing on which qubits CX acts. In particular the circuit contains CX,
+    with control i and target j, if delta[j][i]=1 for i<j. The gates are ordered such the control qubit index
+    increases with time.
     :return: A Hadamard free Clifford circuit.
     """
 
@@ -85,7 +85,7 @@ def clifford_canonical_F(
     # Add layer of CX gates
     for j in range(len(delta)):
         for i in range(j):
-            if delta[i][j]:
+            if delta[j][i]:
                 circ.CX(i, j, opgroup="Clifford 2")
 
     # Add layer of CZ gates
-- 
2.43.0


From ad19b432262ff9a592f6a16defce1a2f3212ee88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:18 +0000
Subject: [PATCH 28/56] fix: permute the qubits of random Clifford circuits in
 the sampled direction

---
 qermit/probabilistic_error_cancellation/cliff_circuit_gen.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py b/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py
index b7d338a..25f57ec 100644
--- a/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py
+++ b/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py
@@ -217,7 +217,9 @@ def random_clifford_circ(n_qubits: int, **kwargs) -> Circuit:
     )
     circ = circ.add_circuit(cliff_circ, [i for i in range(n_qubits)], [])
 
-    # Implement swap layer based on S
+    # Implement swap layer based on S. The swaps below implement the inverse
+    # of the permutation they are given.
+    permute = [permute.index(i) for i in range(n_qubits)]
     for i in range(len(permute)):
         while not (permute[i] == i):
             temp = permute[i]
-- 
2.43.0


From 56cf76f5a36ad73aeeeed703cbc254a29624690e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:18 +0000
Subject: [PATCH 29/56] fix: sample the Pauli layer of random Clifford circuits
 from all Pauli gates

---
 .../cliff_circuit_gen.py                               | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py b/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py
index 25f57ec..d46796a 100644
--- a/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py
+++ b/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py
@@ -16,7 +16,7 @@
 from typing import List, Tuple
 
 import numpy as np
-from pytket import Circuit
+from pytket import Circuit, OpType
 
 
 def sample_q_mallows(n_qubits: int) -> Tuple[List[int], List[int]]:
@@ -102,10 +102,12 @@ def clifford_canonical_F(
     # Add Pauli gate
     for i, gate in enumerate(pauli_layer):
         if gate == 0:
-            circ.X(i, opgroup="Clifford 1")
+            circ.add_gate(OpType.noop, [i], opgroup="Clifford 1")
         elif gate == 1:
-            circ.Y(i, opgroup="Clifford 1")
+            circ.X(i, opgroup="Clifford 1")
         elif gate == 2:
+            circ.Y(i, opgroup="Clifford 1")
+        elif gate == 3:
             circ.Z(i, opgroup="Clifford 1")
 
     return circ
@@ -213,7 +215,7 @@ def random_clifford_circ(n_qubits: int, **kwargs) -> Circuit:
 
     # Append Clifford gate. Here the Pauli gates are assigned at random.
     cliff_circ = clifford_canonical_F(
-        [np.random.randint(2) for _ in range(n_qubits)], Gamma2, Delta2
+        [np.random.randint(4) for _ in range(n_qubits)], Gamma2, Delta2
     )
     circ = circ.add_circuit(cliff_circ, [i for i in range(n_qubits)], [])
 
-- 
2.43.0


From d802e008c50dd9e30798f116d9a8aa2796135139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:41 +0000
Subject: [PATCH 30/56] fix: pass keyword arguments through
 MockQuantinuumBackend.get_result

---
 qermit/noise_model/mock_quantinuum_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qermit/noise_model/mock_quantinuum_backend.py b/qermit/noise_model/mock_quantinuum_backend.py
index 344534e..ba0a5bd 100644
--- a/qermit/noise_model/mock_quantinuum_backend.py
+++ b/qermit/noise_model/mock_quantinuum_backend.py
@@ -119,4 +119,4 @@ class MockQuantinuumBackend(QuantinuumBackend):
         :param handle: handle to results
         :return: Results corresponding to handle.
         """
-        return self.noisy_backend.get_result(handle, *kwargs)
+        return self.noisy_backend.get_result(handle, **kwargs)
-- 
2.43.0


From db24b768452400c098f255436c33764e43ec1a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:41 +0000
Subject: [PATCH 31/56] fix: do not share results between TranspilerBackend
 objects

---
 qermit/noise_model/transpiler_backend.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qermit/noise_model/transpiler_backend.py b/qermit/noise_model/transpiler_backend.py
index f7fa8cc..c2b9421 100644
--- a/qermit/noise_model/transpiler_backend.py
+++ b/qermit/noise_model/transpiler_backend.py
@@ -34,7 +34,7 @@ class TranspilerBackend:
     def __init__(
         self,
         transpiler: BasePass,
-        result_dict: Dict[ResultHandle, BackendResult] = {},
+        result_dict: Optional[Dict[ResultHandle, BackendResult]] = None,
         max_batch_size: int = 1000,
         n_cores: int = 1,
     ):
@@ -46,7 +46,7 @@ class TranspilerBackend:
             bathes of size 1000 plus a smaller batch for left over shot.
             These batches will be distributed to multiple cores.
         :param result_dict: Results dictionary, may be used to store existing
-            results within backend, defaults to {}
+            results within backend, defaults to an empty dictionary
         :param n_cores: Shots will be taken in parallel. This parameter
             specifies the number of cores to use. The default is to use
             one core.
@@ -55,7 +55,7 @@ class TranspilerBackend:
         self.transpiler = transpiler
 
         self.max_batch_size = max_batch_size
-        self.result_dict = result_dict
+        self.result_dict = {} if result_dict is None else result_dict
         self.n_cores = n_cores
 
     def default_compilation_pass(self, **kwargs) -> BasePass:
-- 
2.43.0


From 25994391d3bab117f8ca8a95cb3fc13e382cebb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:17 +0000
Subject: [PATCH 32/56] fix: use the states_simulator_mitex given to
 gen_CDR_MitEx

---
 qermit/clifford_noise_characterisation/ccl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qermit/clifford_noise_characterisation/ccl.py b/qermit/clifford_noise_characterisation/ccl.py
index 0b6cbcc..5e65e10 100644
--- a/qermit/clifford_noise_characterisation/ccl.py
+++ b/qermit/clifford_noise_characterisation/ccl.py
@@ -518,7 +518,7 @@ def gen_CDR_MitEx(
     """
     _states_sim_mitex = copy(
         kwargs.get(
-            "states_simluator_mitex",
+            "states_simulator_mitex",
             MitEx(
                 simulator_backend,
                 _label="StatesSimMitEx",
-- 
2.43.0


From 09396c13fa17533682549351be617c632299fd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:17 +0000
Subject: [PATCH 33/56] fix: keep the registers and implicit permutation of
 circuits in CDR state circuits

---
 qermit/clifford_noise_characterisation/ccl.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qermit/clifford_noise_characterisation/ccl.py b/qermit/clifford_noise_characterisation/ccl.py
index 5e65e10..2446709 100644
--- a/qermit/clifford_noise_characterisation/ccl.py
+++ b/qermit/clifford_noise_characterisation/ccl.py
@@ -133,9 +133,10 @@ def gen_state_circuits(
         np.random.seed(kwargs.get("seed"))
 
     # Work in CX, H, Rz basis for ease
+    c = c.copy()
     DecomposeBoxes().apply(c)
+    c.replace_implicit_wire_swaps()
     ufr_rebase.apply(c)
-    c.flatten_registers()
     all_coms = c.get_commands()
 
     #  angles that make Clifford gates for S^n
@@ -162,7 +163,7 @@ def gen_state_circuits(
         # make special case where its not possible to swap pairs
         # produce state circuits until limit reached
         while len(state_circuits) < total_state_circuits:
-            new_circuit = Circuit(c.n_qubits, len(c.bits))
+            new_circuit = Circuit.from_dict({**c.to_dict(), "commands": []})
             for i in range(len(all_coms)):
                 com = all_coms[i]
                 if com.op.type == OpType.Rz:
@@ -214,7 +215,7 @@ def gen_state_circuits(
         non_clifford_pair_elements = random.sample(list(non_cliffords), n_pairs)
 
         # create new Circuit from scratch
-        new_circuit = Circuit(c.n_qubits, len(c.bits))
+        new_circuit = Circuit.from_dict({**c.to_dict(), "commands": []})
         for i in range(len(all_coms)):
             com = all_coms[i]
             if com.op.type == OpType.Rz:
-- 
2.43.0


From 42b949530850a3a30624affc0b1460b3541dc170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:17 +0000
Subject: [PATCH 34/56] fix: keep the Clifford gates of circuits with one
 non-Clifford gate in CDR state circuits

---
 qermit/clifford_noise_characterisation/ccl.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qermit/clifford_noise_characterisation/ccl.py b/qermit/clifford_noise_characterisation/ccl.py
index 2446709..4b35562 100644
--- a/qermit/clifford_noise_characterisation/ccl.py
+++ b/qermit/clifford_noise_characterisation/ccl.py
@@ -166,7 +166,7 @@ def gen_state_circuits(
             new_circuit = Circuit.from_dict({**c.to_dict(), "commands": []})
             for i in range(len(all_coms)):
                 com = all_coms[i]
-                if com.op.type == OpType.Rz:
+                if i in rz_ops:
                     new_circuit.add_barrier(cast(List[UnitID], com.qubits))
                     original_angle = com.op.params[0]
                     if not isinstance(original_angle, float):
@@ -184,9 +184,9 @@ def gen_state_circuits(
                 # A special case for Barrier metaop
                 elif com.op.type == OpType.Barrier:
                     new_circuit.add_barrier(com.args)
-                # CX or H gate, add as is
+                # CX, H or Clifford Rz gate, add as is
                 else:
-                    new_circuit.add_gate(com.op.type, cast(List[UnitID], com.qubits))
+                    new_circuit.add_gate(com.op, com.args)
 
             # all circuits accepted and run, some results later discarded if not accepted by Metropolis-Hastings rule
             state_circuits.append(new_circuit)
-- 
2.43.0


From b90355ac96ff2a8f028eef6d9025d91cef70a02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:02 +0000
Subject: [PATCH 35/56] fix: keep measurements in CDR state circuits

---
 qermit/clifford_noise_characterisation/ccl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qermit/clifford_noise_characterisation/ccl.py b/qermit/clifford_noise_characterisation/ccl.py
index 4b35562..ff3aadb 100644
--- a/qermit/clifford_noise_characterisation/ccl.py
+++ b/qermit/clifford_noise_characterisation/ccl.py
@@ -179,7 +179,7 @@ def gen_state_circuits(
                     )
                     new_circuit.add_barrier(cast(List[UnitID], com.qubits))
                 # Measure gate has special case, but can assume 1 qubit to 1 bit
-                elif com.op.type is OpType.Measure:
+                elif com.op.type == OpType.Measure:
                     new_circuit.Measure(com.qubits[0], com.bits[0])
                 # A special case for Barrier metaop
                 elif com.op.type == OpType.Barrier:
@@ -261,7 +261,7 @@ def gen_state_circuits(
                     )
                     new_circuit.add_barrier(cast(List[UnitID], com.qubits))
             # Measure gate has special case, but can assume 1 qubit to 1 bit
-            elif com.op.type is OpType.Measure:
+            elif com.op.type == OpType.Measure:
                 new_circuit.Measure(com.qubits[0], com.bits[0])
             # A special case for Barrier metaop
             elif com.op.type == OpType.Barrier:
-- 
2.43.0


From 5782328428880287474eb5b8a525c4504f86df6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:18 +0000
Subject: [PATCH 36/56] fix: calibrate CDR models when every noisy expectation
 value is zero

---
 .../clifford_noise_characterisation/cdr_post.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/qermit/clifford_noise_characterisation/cdr_post.py b/qermit/clifford_noise_characterisation/cdr_post.py
index a02585d..1a9ddc8 100644
--- a/qermit/clifford_noise_characterisation/cdr_post.py
+++ b/qermit/clifford_noise_characterisation/cdr_post.py
@@ -54,12 +54,17 @@ class _PolyCDRCorrect(_BaseExCorrectModel):
         self.params = params
 
     def calibrate(self, noisy_exp: List[float], exact_exp: List[float]) -> None:
-        self.params = cast(
-            List[float],
-            cast(
-                np.ndarray, np.polyfit(x=noisy_exp, y=exact_exp, deg=self.degree)
-            ).tolist(),
-        )
+        # least squares with scaled columns, where columns which are zero (as
+        # when every noisy expectation value is) are left unscaled
+        vandermonde = np.vander(noisy_exp, self.degree + 1)
+        scale = np.linalg.norm(vandermonde, axis=0)
+        scale[scale == 0] = 1
+        coefs = np.linalg.lstsq(
+            vandermonde / scale,
+            exact_exp,
+            rcond=len(noisy_exp) * np.finfo(float).eps,
+        )[0]
+        self.params = cast(List[float], (coefs / scale).tolist())
 
     def correct(self, noisy_expectation: float) -> float:
         return cast(
-- 
2.43.0


From b9ce5f19e51c8cf8aefcd09fd5e4f1794ef36bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:20 +0000
Subject: [PATCH 37/56] fix: merge the results of split jobs which only contain
 counts

---
 qermit/taskgraph/mitres.py | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/qermit/taskgraph/mitres.py b/qermit/taskgraph/mitres.py
index 9dd9a36..28c8228 100644
--- a/qermit/taskgraph/mitres.py
+++ b/qermit/taskgraph/mitres.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 import inspect
+from collections import Counter
 from copy import deepcopy
 from itertools import repeat
 from typing import List, OrderedDict, Sequence, Tuple, Union, cast
@@ -21,6 +22,7 @@ import networkx as nx  # type: ignore
 import numpy as np
 from pytket import Bit, Circuit
 from pytket.backends import Backend, ResultHandle
+from pytket.backends.backend_exceptions import InvalidResultType
 from pytket.backends.backendresult import BackendResult
 from pytket.utils.outcomearray import OutcomeArray
 
@@ -408,11 +410,28 @@ def group_shots_task_gen() -> MitTask:
         for chunk in grouped_results:
             # Concatenate shots from all results
             c_bits = sorted(cast(Sequence[Bit], chunk[0].c_bits))
-            combined_shots = np.concatenate(
-                [result.get_shots(c_bits) for result in chunk]
-            )
-            outcome_array = OutcomeArray.from_readouts(combined_shots)
-            merged_results.append(BackendResult(shots=outcome_array, c_bits=c_bits))
+            try:
+                combined_shots = np.concatenate(
+                    [result.get_shots(c_bits) for result in chunk]
+                )
+                outcome_array = OutcomeArray.from_readouts(combined_shots)
+                merged_results.append(BackendResult(shots=outcome_array, c_bits=c_bits))
+            # Results which only contain counts
+            except InvalidResultType:
+                combined_counts: Counter = Counter()
+                for result in chunk:
+                    combined_counts.update(result.get_counts(c_bits))
+                merged_results.append(
+                    BackendResult(
+                        counts=Counter(
+                            {
+                                OutcomeArray.from_readouts([shot]): count
+                                for shot, count in combined_counts.items()
+                            }
+                        ),
+                        c_bits=c_bits,
+                    )
+                )
 
         return (merged_results,)
 
-- 
2.43.0


From e5c710deefe82f9297021e64009d8d20659494ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:56 +0000
Subject: [PATCH 38/56] fix: account for implicit permutations when preparing
 eigenstates for DFSC

---
 qermit/clifford_noise_characterisation/dfsc.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/qermit/clifford_noise_characterisation/dfsc.py b/qermit/clifford_noise_characterisation/dfsc.py
index 9a945ef..d089b9d 100644
--- a/qermit/clifford_noise_characterisation/dfsc.py
+++ b/qermit/clifford_noise_characterisation/dfsc.py
@@ -74,8 +74,14 @@ def preparation_circuit_for_partition(
     # +1 eigenstate to circuit
     # use RemoveRedundancies after to minimise gates required in cosntruction
     Transform.RebaseToCliffordSingles().apply(clifford_circuit)
+    permutation = clifford_circuit.implicit_qubit_permutation()
     for string in partition:
-        transformed_string = apply_clifford_basis_change(string, clifford_circuit)
+        # strings are measured at the outputs of the circuit, while the basis
+        # change ignores the implicit permutation of its wires.
+        wire_string = QubitPauliString(
+            {wire: string[qubit] for wire, qubit in permutation.items()}
+        )
+        transformed_string = apply_clifford_basis_change(wire_string, clifford_circuit)
         transformed_dict = transformed_string.map
         for qubit in transformed_dict:
             if transformed_dict[qubit] == Pauli.X:
-- 
2.43.0


From 4d4183037c8064425da21704a17ccbdcc6b56bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:55 +0000
Subject: [PATCH 39/56] fix: accept symbolic rotations of several qubits in
 DFSC

---
 qermit/clifford_noise_characterisation/dfsc.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/qermit/clifford_noise_characterisation/dfsc.py b/qermit/clifford_noise_characterisation/dfsc.py
index d089b9d..f56b97c 100644
--- a/qermit/clifford_noise_characterisation/dfsc.py
+++ b/qermit/clifford_noise_characterisation/dfsc.py
@@ -19,6 +19,7 @@ from typing import Dict, List, Tuple, Union, cast
 from numpy import mean
 from pytket import Circuit
 from pytket.backends import Backend
+from pytket.passes import DecomposeBoxes, DecomposeMultiQubitsCX
 from pytket.pauli import Pauli, QubitPauliString
 from pytket.tailoring import apply_clifford_basis_change
 from pytket.transform import Transform
@@ -74,14 +75,19 @@ def preparation_circuit_for_partition(
     # +1 eigenstate to circuit
     # use RemoveRedundancies after to minimise gates required in cosntruction
     Transform.RebaseToCliffordSingles().apply(clifford_circuit)
-    permutation = clifford_circuit.implicit_qubit_permutation()
+    # rotations of several qubits are only known to be Clifford once decomposed
+    basis_circuit = clifford_circuit.copy()
+    DecomposeBoxes().apply(basis_circuit)
+    DecomposeMultiQubitsCX().apply(basis_circuit)
+    Transform.RebaseToCliffordSingles().apply(basis_circuit)
+    permutation = basis_circuit.implicit_qubit_permutation()
     for string in partition:
         # strings are measured at the outputs of the circuit, while the basis
         # change ignores the implicit permutation of its wires.
         wire_string = QubitPauliString(
             {wire: string[qubit] for wire, qubit in permutation.items()}
         )
-        transformed_string = apply_clifford_basis_change(wire_string, clifford_circuit)
+        transformed_string = apply_clifford_basis_change(wire_string, basis_circuit)
         transformed_dict = transformed_string.map
         for qubit in transformed_dict:
             if transformed_dict[qubit] == Pauli.X:
-- 
2.43.0


From d4b13f63392d77ae3810371daaa17595ff84fecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:59 +0000
Subject: [PATCH 40/56] fix: correct with the magnitude of DFSC
 characterisation values, which are negative for -1 eigenstates

---
 qermit/clifford_noise_characterisation/dfsc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qermit/clifford_noise_characterisation/dfsc.py b/qermit/clifford_noise_characterisation/dfsc.py
index f56b97c..49a0f9a 100644
--- a/qermit/clifford_noise_characterisation/dfsc.py
+++ b/qermit/clifford_noise_characterisation/dfsc.py
@@ -272,8 +272,8 @@ def DFSC_characterisation_task_gen() -> MitTask:
 
 def DFSC_correction_task_gen(zero_threshold: float) -> MitTask:
     """
-    For each experiment expectation, if characterisation value greater than threshold, divide experiment expectation
-    by characterisation value to correct for depolarising noise.
+    For each experiment expectation, if the magnitude of the characterisation value is greater than threshold, divide
+    experiment expectation by this magnitude to correct for depolarising noise.
 
     :param zero_threshold: Method does not correct for zero characterisation expectation values, threshold for this zero limit.
 
@@ -303,7 +303,8 @@ def DFSC_correction_task_gen(zero_threshold: float) -> MitTask:
         ):
             new_qpo = dict()
             for key in experiment_qpo._dict:
-                val = characterisation_qpo._dict[key]
+                # characterisation circuits may prepare -1 eigenstates
+                val = abs(characterisation_qpo._dict[key])
                 if val > zero_threshold:
                     new_qpo[key] = experiment_qpo._dict[key] / val
                 else:
-- 
2.43.0


From fc88035865868d3046c4b1907639b7555813b7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:39 +0000
Subject: [PATCH 41/56] fix: characterise circuits with barriers in DFSC

---
 qermit/clifford_noise_characterisation/dfsc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qermit/clifford_noise_characterisation/dfsc.py b/qermit/clifford_noise_characterisation/dfsc.py
index 49a0f9a..b9b6bcb 100644
--- a/qermit/clifford_noise_characterisation/dfsc.py
+++ b/qermit/clifford_noise_characterisation/dfsc.py
@@ -19,7 +19,7 @@ from typing import Dict, List, Tuple, Union, cast
 from numpy import mean
 from pytket import Circuit
 from pytket.backends import Backend
-from pytket.passes import DecomposeBoxes, DecomposeMultiQubitsCX
+from pytket.passes import DecomposeBoxes, DecomposeMultiQubitsCX, RemoveBarriers
 from pytket.pauli import Pauli, QubitPauliString
 from pytket.tailoring import apply_clifford_basis_change
 from pytket.transform import Transform
@@ -77,6 +77,7 @@ def preparation_circuit_for_partition(
     Transform.RebaseToCliffordSingles().apply(clifford_circuit)
     # rotations of several qubits are only known to be Clifford once decomposed
     basis_circuit = clifford_circuit.copy()
+    RemoveBarriers().apply(basis_circuit)
     DecomposeBoxes().apply(basis_circuit)
     DecomposeMultiQubitsCX().apply(basis_circuit)
     Transform.RebaseToCliffordSingles().apply(basis_circuit)
-- 
2.43.0


From 0d123c9e18e6ab2fb352d264069b1a66762183e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:59 +0000
Subject: [PATCH 42/56] fix: keep the qubits of circuits in PEC training
 circuits

---
 .../pec_learning_based.py                                 | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/qermit/probabilistic_error_cancellation/pec_learning_based.py b/qermit/probabilistic_error_cancellation/pec_learning_based.py
index 845ed87..79987b6 100644
--- a/qermit/probabilistic_error_cancellation/pec_learning_based.py
+++ b/qermit/probabilistic_error_cancellation/pec_learning_based.py
@@ -136,16 +136,18 @@ def random_commuting_clifford(
 
         new_qps = QubitPauliString(cast(List[Qubit], new_qps_qbs), qps_paulis)
 
-        place_with_map(rand_cliff_circ, n_q_map)
+        # The returned circuit keeps its qubits, which the observable refers to.
+        placed_circ = rand_cliff_circ.copy()
+        place_with_map(placed_circ, n_q_map)
 
         # Check if state is supported, otherwise use shots, otherwise raise error
         if simulator_backend.supports_state:
             expect_val = get_pauli_expectation_value(
-                rand_cliff_circ, new_qps, simulator_backend
+                placed_circ, new_qps, simulator_backend
             )
         elif simulator_backend.supports_shots or simulator_backend.supports_counts:
             expect_val = get_pauli_expectation_value(
-                rand_cliff_circ, new_qps, simulator_backend, n_shots=n_shots
+                placed_circ, new_qps, simulator_backend, n_shots=n_shots
             )
         else:
             raise RuntimeError(
-- 
2.43.0


From 995be1ab21d6f40badf73697b8a11f954f62a914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:59 +0000
Subject: [PATCH 43/56] fix: accept a PEC training circuit found in the last
 attempt

---
 qermit/probabilistic_error_cancellation/pec_learning_based.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qermit/probabilistic_error_cancellation/pec_learning_based.py b/qermit/probabilistic_error_cancellation/pec_learning_based.py
index 79987b6..d17ebfc 100644
--- a/qermit/probabilistic_error_cancellation/pec_learning_based.py
+++ b/qermit/probabilistic_error_cancellation/pec_learning_based.py
@@ -157,7 +157,7 @@ def random_commuting_clifford(
 
         # Check if the number of attempts at finding a circuit with non-zero expectation exceeds the maximum.
         count += 1
-        if count == max_count:
+        if count == max_count and round(abs(expect_val)) == 0:
             raise RuntimeError(
                 "Could not find circuit with non-zero expectation. It's possible there are none."
             )
-- 
2.43.0


From edf431edc34064b6784374bb33e9a5dc00a159c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:59 +0000
Subject: [PATCH 44/56] fix: only label TK1 and CX gates for PEC

---
 qermit/probabilistic_error_cancellation/pec_learning_based.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qermit/probabilistic_error_cancellation/pec_learning_based.py b/qermit/probabilistic_error_cancellation/pec_learning_based.py
index d17ebfc..48c655b 100644
--- a/qermit/probabilistic_error_cancellation/pec_learning_based.py
+++ b/qermit/probabilistic_error_cancellation/pec_learning_based.py
@@ -664,10 +664,10 @@ def label_gates(circ: Circuit) -> Circuit:
     frame_count = 0
     for command in command_list:
         labelled_command = command.copy()
-        if labelled_command["op"]["type"] in ("TK1"):
+        if labelled_command["op"]["type"] == "TK1":
             labelled_command["opgroup"] = "Computing %i" % comp_count
             comp_count += 1
-        elif labelled_command["op"]["type"] in ("CX"):
+        elif labelled_command["op"]["type"] == "CX":
             labelled_command["opgroup"] = "Frame %i" % frame_count
             frame_count += 1
         else:
-- 
2.43.0


From 137468bfe509b31cccf88e761b5d9ad82c4ec154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:59 +0000
Subject: [PATCH 45/56] fix: let the seed given for PEC decide its training
 circuits

---
 qermit/probabilistic_error_cancellation/cliff_circuit_gen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py b/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py
index d46796a..d048917 100644
--- a/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py
+++ b/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py
@@ -204,7 +204,8 @@ def random_clifford_circ(n_qubits: int, **kwargs) -> Circuit:
     :return: A random Clifford circuit acting on n_qubits qubits
     """
 
-    np.random.seed(kwargs.get("seed", None))
+    if "seed" in kwargs:
+        np.random.seed(kwargs["seed"])
 
     circ = Circuit(n_qubits)
 
-- 
2.43.0


From c6734f69df09271a4b4b7e17a2a01ef5e60ab440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:42 +0000
Subject: [PATCH 46/56] fix: measure each point of a spectral filtering grid
 with its own tracker

---
 qermit/spectral_filtering/spectral_filtering.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qermit/spectral_filtering/spectral_filtering.py b/qermit/spectral_filtering/spectral_filtering.py
index 2eaefe0..785fa65 100644
--- a/qermit/spectral_filtering/spectral_filtering.py
+++ b/qermit/spectral_filtering/spectral_filtering.py
@@ -411,8 +411,10 @@ def gen_obs_exp_grid_gen_task() -> MitTask:
                 circ = obs_exp.AnsatzCircuit.Circuit.copy()
                 anz_circ = AnsatzCircuit(circ, obs_exp.AnsatzCircuit.Shots, sym_dict)
 
+                # Measurement circuits depend on the symbol values, so each
+                # grid point needs its own ObservableTracker.
                 obs_exp_grid[grid_point] = ObservableExperiment(
-                    anz_circ, obs_exp.ObservableTracker
+                    anz_circ, deepcopy(obs_exp.ObservableTracker)
                 )
 
             obs_exp_grid_list.append(obs_exp_grid)
-- 
2.43.0


From f0756fe7c1fe9d748a088b1920e81bba6df17083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:30 +0000
Subject: [PATCH 47/56] fix: do not add measurement circuits to the trackers
 passed to measurement reduction

---
 qermit/taskgraph/measurement_reduction.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qermit/taskgraph/measurement_reduction.py b/qermit/taskgraph/measurement_reduction.py
index b9e3e11..f0c6548 100644
--- a/qermit/taskgraph/measurement_reduction.py
+++ b/qermit/taskgraph/measurement_reduction.py
@@ -28,7 +28,7 @@ from pytket.transform import CXConfigType
 
 from .mitex import MitEx
 from .mittask import MitTask, ObservableExperiment
-from .utils import MeasurementCircuit
+from .utils import MeasurementCircuit, ObservableTracker
 
 
 def measurement_reduction_task_gen(
@@ -57,8 +57,9 @@ def measurement_reduction_task_gen(
             circ = measurement_wire[0][0]
             # symbols dict object
             symbols = measurement_wire[0][2]
-            # ObservableTracker object for given experiment
-            tracker = measurement_wire[1]
+            # copy of ObservableTracker object for given experiment, so that the
+            # measurement circuits are not added to the experiment passed in
+            tracker = ObservableTracker.from_ObservableTracker(measurement_wire[1])
             # use measurement reduction method to get MeasurementSetup object
             # with reduced number of measurement circuits
             new_setup = measurement_reduction(
-- 
2.43.0


From f4daf79b8b483a0c1dc4393c04bde41e106597c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:30 +0000
Subject: [PATCH 48/56] fix: fold circuits without gates

---
 qermit/zero_noise_extrapolation/zne.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qermit/zero_noise_extrapolation/zne.py b/qermit/zero_noise_extrapolation/zne.py
index 9272dbf..d6f4551 100644
--- a/qermit/zero_noise_extrapolation/zne.py
+++ b/qermit/zero_noise_extrapolation/zne.py
@@ -248,6 +248,10 @@ class Folding(Enum):
         ]
         num_non_barrier_commands = len(c_dict_commands_non_barrier)
 
+        # Circuits without gates have nothing to fold.
+        if num_non_barrier_commands == 0:
+            return [circ.copy()]
+
         # Calculate the number of gates that need to be folded. Note that only
         # non barrier commands should be folded so only these are counted.
         num_additional_commands = (noise_scaling - 1) * num_non_barrier_commands
-- 
2.43.0


From 24b30a78a9521fc81aee74f71773feb414bc337b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:24 +0000
Subject: [PATCH 49/56] fix: let measurement reduction only measure strings
 without a measurement circuit

---
 qermit/taskgraph/measurement_reduction.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qermit/taskgraph/measurement_reduction.py b/qermit/taskgraph/measurement_reduction.py
index f0c6548..1670c9c 100644
--- a/qermit/taskgraph/measurement_reduction.py
+++ b/qermit/taskgraph/measurement_reduction.py
@@ -61,9 +61,10 @@ def measurement_reduction_task_gen(
             # measurement circuits are not added to the experiment passed in
             tracker = ObservableTracker.from_ObservableTracker(measurement_wire[1])
             # use measurement reduction method to get MeasurementSetup object
-            # with reduced number of measurement circuits
+            # with reduced number of measurement circuits, for the strings which
+            # do not have a measurement circuit yet
             new_setup = measurement_reduction(
-                list(tracker._qubit_pauli_operator._dict.keys()),
+                tracker.get_empty_strings(),
                 strat=strategy,
                 method=method,
                 cx_config=cx_config,
-- 
2.43.0


From 773e293bf9eb3932df2124ad911c9046a0ef0963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:36 +0000
Subject: [PATCH 50/56] fix: measure each experiment of a MitEx with its own
 tracker

---
 qermit/taskgraph/mitex.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qermit/taskgraph/mitex.py b/qermit/taskgraph/mitex.py
index 4871040..bfe697d 100644
--- a/qermit/taskgraph/mitex.py
+++ b/qermit/taskgraph/mitex.py
@@ -132,7 +132,10 @@ def filter_observable_tracker_task_gen() -> MitTask:
             circuit = ansatz_circuit[0]
             shots = ansatz_circuit[1]
             symbols = ansatz_circuit[2]
-            observable_tracker = measurement_wire[1]
+            # copied as measurement circuits are those of this experiment only
+            observable_tracker = ObservableTracker.from_ObservableTracker(
+                measurement_wire[1]
+            )
 
             non_existant_qubits = (
                 observable_tracker.qubit_pauli_operator.all_qubits.difference(
-- 
2.43.0


From dea2e9a09cf21db082830b7896c1ad64ce77fc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:20 +0000
Subject: [PATCH 51/56] fix: merge an empty list of experiments in ZNE

---
 qermit/zero_noise_extrapolation/zne.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qermit/zero_noise_extrapolation/zne.py b/qermit/zero_noise_extrapolation/zne.py
index d6f4551..86b4ebb 100644
--- a/qermit/zero_noise_extrapolation/zne.py
+++ b/qermit/zero_noise_extrapolation/zne.py
@@ -794,7 +794,7 @@ def merge_experiments_task_gen() -> MitTask:
         return (
             [
                 QubitPauliOperator(dictionary=index_to_merged_qpo_dict.get(index, {}))
-                for index in range(max(experiment_index_list) + 1)
+                for index in range(max(experiment_index_list, default=-1) + 1)
             ],
         )
 
-- 
2.43.0


From ada5fb14a201af8789def3d489a66524c719ee76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:56 +0000
Subject: [PATCH 52/56] fix: keep the sub-DAGs of a DAG acyclically ordered
 when merging them

---
 .../monochromatic_convex_subdag.py                   | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/qermit/coherent_pauli_checks/monochromatic_convex_subdag.py b/qermit/coherent_pauli_checks/monochromatic_convex_subdag.py
index f93803f..d769da7 100644
--- a/qermit/coherent_pauli_checks/monochromatic_convex_subdag.py
+++ b/qermit/coherent_pauli_checks/monochromatic_convex_subdag.py
@@ -139,6 +139,18 @@ def get_monochromatic_convex_subdag(
             ):
                 for node in _subdag_nodes(subdag=subdag_two, node_subdag=node_subdag):
                     node_subdag[node] = subdag_one
+
+                # The nodes of a sub-DAG are implemented together. As such paths
+                # can now enter the merged sub-DAG at one node and leave it
+                # at any other.
+                merged_nodes = _subdag_nodes(subdag=subdag_one, node_subdag=node_subdag)
+                merged_descendants = set().union(
+                    *[node_descendants[node] for node in merged_nodes]
+                )
+                for descendants in node_descendants.values():
+                    if not descendants.isdisjoint(merged_nodes):
+                        descendants.update(merged_descendants)
+
                 subgraph_merged = True
                 break
 
-- 
2.43.0


From 4363340f01a7df8181ed18dba7d0322d4d5b9d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:24 +0000
Subject: [PATCH 53/56] fix: draw tasks of the same label as separate nodes and
 escape labels

---
 qermit/taskgraph/graphviz.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/qermit/taskgraph/graphviz.py b/qermit/taskgraph/graphviz.py
index cf45f15..22c2d74 100644
--- a/qermit/taskgraph/graphviz.py
+++ b/qermit/taskgraph/graphviz.py
@@ -1,5 +1,6 @@
 """Visualise TaskGraph using graphviz."""
 
+from html import escape
 from typing import TYPE_CHECKING, Iterable, Optional, Tuple
 
 import graphviz as gv  # type: ignore
@@ -135,9 +136,14 @@ def _taskgraph_to_graphviz(
     }
     gv_graph.attr(**graph_atrr)
 
+    # Nodes are identified by their position, as labels need not be unique.
+    node_identifiers = {
+        node: f"{prefix}node_{index}" for index, node in enumerate(nx_graph.nodes)
+    }
+
     for node in nx_graph.nodes:
-        node_identifier = prefix + _convert_nodename(node)
-        node_name = node_identifier
+        node_identifier = node_identifiers[node]
+        node_name = prefix + _convert_nodename(node)
 
         node_label, fillcolor = _node_features(node_name, node)
 
@@ -151,7 +157,7 @@ def _taskgraph_to_graphviz(
 
         html_label = _format_html_label(
             node_back_color=fillcolor,
-            node_label=node_label,
+            node_label=escape(node_label),
             inputs_row=_html_ports(in_ports) if in_ports else "",
             outputs_row=_html_ports(out_ports) if out_ports else "",
             border_colour=_COLOURS["background"]
@@ -178,8 +184,8 @@ def _taskgraph_to_graphviz(
         src_port = edge[2][0]
         tgt_port = edge[2][1]
 
-        src_nodename = f"{_convert_nodename(src_node)}:out_{src_port}"
-        tgt_nodename = f"{_convert_nodename(tgt_node)}:in_{tgt_port}"
+        src_nodename = f"{node_identifiers[src_node]}:out_{src_port}"
+        tgt_nodename = f"{node_identifiers[tgt_node]}:in_{tgt_port}"
         gv_graph.edge(
             src_nodename,
             tgt_nodename,
-- 
2.43.0


From 711a2eccc78b2efaead6b4965530e1225bf6d8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:00 +0000
Subject: [PATCH 54/56] fix: give copied task graphs their own cache

---
 qermit/taskgraph/task_graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qermit/taskgraph/task_graph.py b/qermit/taskgraph/task_graph.py
index 7b396a6..1af28a5 100644
--- a/qermit/taskgraph/task_graph.py
+++ b/qermit/taskgraph/task_graph.py
@@ -78,6 +78,7 @@ class TaskGraph:
         new_task_graph = self.__class__.__new__(self.__class__)
         new_task_graph.__dict__.update(self.__dict__)
         new_task_graph._task_graph = deepcopy(self._task_graph)
+        new_task_graph._cache = OrderedDict(self._cache)
         return new_task_graph
 
     @property
-- 
2.43.0


From 70b2a11fa1b65a81410bde002552b5addb5ec2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:16 +0000
Subject: [PATCH 55/56] fix: keep the characterisation given to a nested graph
 when decomposing

---
 qermit/taskgraph/task_graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qermit/taskgraph/task_graph.py b/qermit/taskgraph/task_graph.py
index 1af28a5..a1f8410 100644
--- a/qermit/taskgraph/task_graph.py
+++ b/qermit/taskgraph/task_graph.py
@@ -236,6 +236,8 @@ class TaskGraph:
                         # in practice only IOTask
                         if hasattr(sub_task, "_label"):
                             sub_task._label = task._label + sub_task._label
+                            # the tasks keep the characterisation given to their graph
+                            sub_task.characterisation.update(task.characterisation)
 
                     # edges are matched by port, hence sorted by the port at the
                     # boundary between the node and the graph around it
-- 
2.43.0


From 311a44fc28abcaab0c4348dfd4a9e4ede88d8d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:16 +0000
Subject: [PATCH 56/56] fix: keep the characterisation of a task graph which a
 MitRes or MitEx is made from

---
 qermit/taskgraph/mitex.py  | 1 +
 qermit/taskgraph/mitres.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/qermit/taskgraph/mitex.py b/qermit/taskgraph/mitex.py
index bfe697d..617efd6 100644
--- a/qermit/taskgraph/mitex.py
+++ b/qermit/taskgraph/mitex.py
@@ -433,6 +433,7 @@ class MitEx(TaskGraph):
             )
         self._task_graph = deepcopy(task_graph._task_graph)
         self._label = task_graph._label
+        self.characterisation = task_graph.characterisation
         return self
 
     def parallel(self, task: Union[MitTask, "TaskGraph"]):
diff --git a/qermit/taskgraph/mitres.py b/qermit/taskgraph/mitres.py
index 28c8228..6728692 100644
--- a/qermit/taskgraph/mitres.py
+++ b/qermit/taskgraph/mitres.py
@@ -259,6 +259,7 @@ class MitRes(TaskGraph):
             )
         self._task_graph = deepcopy(task_graph._task_graph)
         self._label = task_graph._label
+        self.characterisation = task_graph.characterisation
         return self
 
     def parallel(self, task: Union[MitTask, "TaskGraph"]):
-- 
2.43.0

