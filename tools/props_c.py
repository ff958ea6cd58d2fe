"""Source of the third part of properties.jsonl (see tools/mk.py)."""
from props_a import _mk

P = []
p = _mk(P)
C = "qermit/coherent_pauli_checks/"

p(
    "C15",
    "Boxing Clifford subcircuits keeps the circuit and boxes all Clifford gates",
    "For every circuit, the circuit with its Clifford parts boxed has the same qubits, bits, name, implicit permutation and phase, performs every operation (with its operation group and condition) exactly once and in the same order along every qubit and bit, and so has the same unitary and outcome distribution. Boxes contain only Clifford gates and no Clifford gate is left outside a box. The task applying this to a list of circuits keeps their order and shots and does not change the circuits given.",
    ["programs"],
    "all circuits with Clifford and other gates, measurements, resets, conditionals, barriers, boxes, operation groups and implicit permutations",
    "tests box five fixed circuits; orderings forced by classical bits, permutations and interleaved regions are not sampled",
    [C + "box_clifford_subcircuits.py", C + "monochromatic_convex_subdag.py", C + "coherent_pauli_checks_mitres.py"],
    [("BoxClifford", C + "box_clifford_subcircuits.py"), ("gen_find_cliffords_task", C + "coherent_pauli_checks_mitres.py")],
    ["BoxClifford().apply"],
)
p(
    "C16",
    "Coloured nodes of a DAG are split into few convex, acyclically ordered parts",
    "For every directed acyclic graph and set of coloured nodes, every coloured node and no other is assigned to exactly one part, no path between two nodes of a part leaves the part, and the parts do not depend on each other cyclically. No two parts are left apart which could be one part without making parts depend on each other cyclically. The graph is not changed.",
    ["inputs"],
    "all directed acyclic graphs (to 30 nodes) and colourings",
    "tests look at one graph of eight nodes and at the circuits of the boxing tests",
    [C + "monochromatic_convex_subdag.py"],
    [("get_monochromatic_convex_subdag", C + "monochromatic_convex_subdag.py")],
    ["get_monochromatic_convex_subdag"],
)
p(
    "C17",
    "Pauli checks are silent without noise, flag what they should, change nothing",
    "For every circuit with boxed Clifford parts and every choice of checks, the checked circuit has one more measured ancilla per check, all ancillas are 0 with certainty, and the state, outcomes and implicit permutation of the original qubits and bits are unchanged. A Pauli error next to a boxed part raises exactly one flag for each check with which it anticommutes. Running circuits with checks returns, per circuit and in order, exactly the shots in which no flag is raised, over the circuit's own bits.",
    ["programs", "fault_sequences"],
    "all circuits and hand-made boxes, all samplers and Paulis with any phase, all Pauli errors next to a box, and noisy runs",
    "tests fix the checks of five circuits; barriers, permutations and other names in boxes, and the flags raised by errors are not sampled",
    [C + "pauli_sampler.py", C + "coherent_pauli_checks_mitres.py"],
    [("PauliSampler.add_pauli_checks_to_circbox", C + "pauli_sampler.py"), ("gen_check_circuit_task / gen_coherent_pauli_check_mitres", C + "coherent_pauli_checks_mitres.py")],
    ["checked circuits", "MitRes.run"],
)
p(
    "C18",
    "Postselection keeps exactly the accepted shots, over exactly the compute bits",
    "For every result (counts or shots, bits in any order) and choice of compute and postselected bits, postselection returns for each outcome of the compute bits the number of shots with that outcome in which all postselected bits are 0, and merging returns the number of all shots with that outcome. The result given is unchanged, overlapping choices are refused, and the postselecting MitRes and tasks do this for each circuit, in order, with its own choice, whatever MitRes they are built from.",
    ["inputs"],
    "all results over up to five bits and all choices of bits; all circuits with measurements for the MitRes",
    "tests use two fixed results with bits in circuit order",
    ["qermit/postselection/postselect_manager.py", "qermit/postselection/postselect_mitres.py"],
    [("PostselectMgr", "qermit/postselection/postselect_manager.py"), ("gen_postselect_mitres", "qermit/postselection/postselect_mitres.py")],
    ["PostselectMgr", "MitRes.run"],
)
p(
    "C19",
    "Leakage detection drops exactly the leaky shots and changes nothing else",
    "For every list of circuits with measurements and every device size, the results without leakage are the outcomes of the circuits, per circuit and in order, over all of the circuit's bits and with all of its shots. When detection gadgets report leakage exactly the shots in which none does are returned. The circuits submitted fit the device and have a gadget for each measured qubit the device has room to check.",
    ["inputs", "fault_sequences"],
    "all circuits (mid-circuit measurement, unused bits, any names), numbers of spare qubits, and leakage reports",
    "tests use two fixed circuits and a noisy simulator",
    ["qermit/leakage_detection/leakage_detection.py"],
    [("gen_add_leakage_gadget_circuit_task / get_leakage_detection_mitres", "qermit/leakage_detection/leakage_detection.py")],
    ["MitRes.run", "circuits received by the backend"],
)
p(
    "C20",
    "SPAM correction undoes readout noise of the structure it characterises",
    "On a device whose readout noise is correlated only within given sets of nodes, SPAM correction with these sets, in any order and of any sizes, returns for every circuit the outcomes it would have without noise, up to rounding of counts (and convergence for the iterative method), over the circuit's bits and wherever the compiler places it; outcomes which that noise does not explain are returned with the noise inverted, negative values replaced by zero and the rest scaled to the same total; the same holds for independent noise on partly measured sets and for mid-circuit measurements. The device is characterised once, with a circuit per state of the largest set, and not again in later runs.",
    ["inputs", "configurations"],
    "all partitions of up to four nodes, noise matrices, circuits, placements, bit orders and correction methods",
    "tests use two or three fixed matrices with sets of equal size",
    ["qermit/spam/full_transition_tomography.py", "qermit/spam/full_spam_correction.py", "qermit/spam/spam_mitres.py"],
    [("calculate_correlation_matrices / correct_transition_noise", "qermit/spam/full_transition_tomography.py"), ("gen_FullyCorrelated_SPAM_MitRes / gen_UnCorrelated_SPAM_MitRes", "qermit/spam/spam_mitres.py")],
    ["MitRes.run", "jobs received by the backend"],
)
p(
    "C28",
    "Samplers return valid Pauli checks, and the optimal sampler an optimal choice",
    "For every Clifford circuit, samplers return exactly the requested number of checks, each on the qubits of the circuit, without phase, and never the identity. The optimal sampler's checks are distinct and leave undetected the least error probability that any choice of as many checks leaves, under the error distribution the noise model reports for the circuit. The random sampler draws every other Pauli with equal probability, reproducibly for a given generator.",
    ["inputs"],
    "all circuits on 1-3 qubits, numbers of checks and error distributions",
    "tests compare the optimal choice for two circuits with one certain error",
    [C + "pauli_sampler.py", "qermit/noise_model/noise_model.py"],
    [("OptimalPauliSampler.sample", C + "pauli_sampler.py"), ("RandomPauliSampler.sample", C + "pauli_sampler.py")],
    ["PauliSampler.sample"],
)
