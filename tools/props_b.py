"""Source of the second part of properties.jsonl (see tools/mk.py)."""
from props_a import _mk

P = []
p = _mk(P)
Z = "qermit/zero_noise_extrapolation/zne.py"
N = "qermit/noise_model/"

p(
    "C10",
    "Zero-noise extrapolation fits recover data that the chosen curve family contains",
    "For every fit type, noise levels in any order and data lying exactly on a member of the fitted family, the extrapolated value is that member's value at zero noise; for other data polynomial and linear fits give the value at zero of the least-squares polynomial; a fit of a degree the data cannot determine is refused rather than answered. The extrapolation over a list of experiments applies this to every string of every experiment independently, matching each experiment's values by noise level, and duplicating, folding and merging experiments across noise levels keeps every experiment's identity, order, shots and tracked operator.",
    ["inputs"],
    "all data sets generated from the fitted families, all orders and numbers of noise levels, experiments and strings",
    "tests fit two or three fixed data sets; permuted noise levels, interleaved experiments and minimal data sets are not sampled",
    [Z],
    [("Fit", Z), ("extrapolation_task_gen", Z), ("gen_duplication_task / merge_experiments_task_gen / digital_folding_task_gen", Z)],
    ["Fit.*", "tasks of the ZNE graph"],
)
p(
    "C11",
    "ZNE is exact without noise and for noise that follows the chosen extrapolation",
    "For every list of experiments, noise scalings (in any order), folding type and optimisation level, ZNE on a noise-free device returns the exact expectation value of every string of every experiment, with its coefficient, in order; on a device whose signal decays by a fixed amount per executed two-qubit gate it returns the exact value whenever the folding scales that count exactly and the fit contains the decay. The circuits executed at each noise level are the folded ones and are not simplified back.",
    ["inputs", "configurations"],
    "all experiments (1-3 qubits, symbols, names), scalings, folding types, fits, optimisation levels, seeds and devices that relabel qubits",
    "end-to-end tests use one or two Clifford circuits with a tolerance of the size of the effect",
    [Z, "qermit/taskgraph/mitex.py"],
    [("gen_ZNE_MitEx", Z), ("gen_noise_scaled_mitex", Z), ("gen_initial_compilation_task / gen_qubit_relabel_task", Z)],
    ["MitEx.run", "circuits received by the backend"],
)
p(
    "C12",
    "Noise models: PTMs, scaling, sampling and conversions describe the same channel",
    "For every Pauli error distribution, the Pauli transfer matrix is that of the channel applying each error with its rate, and converting the matrix back gives the same rates; averaging, composing and scaling distributions and whole noise models gives the channel (and its power) that the corresponding mathematical operation defines; sampling draws each error, or none, with its rate; converting to and from dictionaries is lossless; equality compares rates per error; and rates that are not probabilities are refused.",
    ["inputs"],
    "all distributions over 1-3 qubits with any rates, including zero, tiny and identity entries, and all scaling factors",
    "tests convert three or four fixed one- and two-qubit distributions",
    [N + "noise_model.py"],
    [("ErrorDistribution.to_ptm / from_ptm / scale / sample", N + "noise_model.py"), ("NoiseModel.scale / conversions", N + "noise_model.py")],
    ["ErrorDistribution", "NoiseModel"],
)
p(
    "C13",
    "Pauli tracking is exact, phase included, through any Clifford history",
    "After any history of supported Clifford gates, Clifford circuits (implicit qubit permutations included), multiplications by Paulis on either side and daggers, the Pauli held equals conjugation and multiplication of the matrices, exactly including its phase. Its circuit implements it, its controlled circuit implements the controlled operator, restriction and measurability follow from its letters, equality and hash follow the operator, queries do not change it, and gates that are not Clifford are refused.",
    ["histories", "inputs"],
    "all histories over all supported gates and angles, on any qubits",
    "tests check a table of gates on X and Z and a few two-step histories; signs from compositions and rotations by arbitrary quarter turns are not sampled",
    [N + "qermit_pauli.py"],
    [("QermitPauli.apply_gate / apply_circuit", N + "qermit_pauli.py"), ("get_control_circuit / circuit", N + "qermit_pauli.py")],
    ["QermitPauli"],
)
p(
    "C14",
    "Noise transpilation puts the errors after the noisy gates and changes no more",
    "Transpiling a circuit with a noise model yields the same circuit (registers, bits, order of operations, conditions, barriers, implicit permutation, phase) with after each gate of a noisy type an error drawn from the distribution of that type, on the qubits of that gate in order, and never elsewhere. The error propagated to the end of a Clifford circuit by the noise model is the Pauli by which the noisy circuit differs from the ideal one, and the logical error distribution is the distribution of these.",
    ["inputs"],
    "all circuits and noise models; probability-one errors decide placement exactly, mixtures the rates",
    "tests look at one or two circuits with certain errors",
    [N + "pauli_error_transpile.py", N + "noise_model.py"],
    [("PauliErrorTranspile", N + "pauli_error_transpile.py"), ("NoiseModel.random_propagate / get_effective_pre_error_distribution / counter_propagate", N + "noise_model.py")],
    ["PauliErrorTranspile", "NoiseModel"],
)
