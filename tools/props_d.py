"""Source of the fourth part of properties.jsonl (see tools/mk.py)."""
from props_a import _mk

P = []
p = _mk(P)
N = "qermit/noise_model/"
PEC = "qermit/probabilistic_error_cancellation/"

p(
    "C26",
    "Random Clifford circuits are valid, reproducible and uniformly distributed",
    "For every number of qubits, random Clifford circuits consist of Clifford gates labelled with their arity, act on exactly the requested qubits, and are the same for the same seed. Over seeds they are uniformly distributed over the Clifford group: the image of every Pauli string is uniform over all signed non-identity strings, and for one and two qubits every group element is equally likely.",
    ["inputs"],
    "all qubit numbers to eight and all seeds; distribution tested to five qubits",
    "no test looks at the distribution or the unitaries",
    [PEC + "cliff_circuit_gen.py"],
    [("random_clifford_circ", PEC + "cliff_circuit_gen.py")],
    ["random_clifford_circ"],
)
p(
    "C27",
    "Simulator backends take every shot from the stated noise and mix up no results",
    "The backend simulating noise by compilation takes each of the requested shots from a fresh application of the pass to the unchanged circuit, for every batch size and number of cores, and returns exactly these outcomes over the circuit's bits under the handle of that circuit. The depolarising backend samples from the exact distribution of the circuit with the stated gate and readout errors. The mock device returns for each circuit, in order, the requested number of shots over its bits, distributed as the circuit up to the device's small noise.",
    ["programs", "configurations"],
    "all circuits with mid-circuit measurement, resets and conditionals; shots, batches, cores, noise rates, call styles",
    "tests run a few fixed circuits on one core with generous tolerances",
    [N + "transpiler_backend.py", N + "noisy_aer_backend.py", N + "mock_quantinuum_backend.py"],
    [("TranspilerBackend", N + "transpiler_backend.py"), ("NoisyAerBackend", N + "noisy_aer_backend.py"), ("MockQuantinuumBackend", N + "mock_quantinuum_backend.py")],
    ["Backend.process_circuits / get_result", "TranspilerBackend.get_counts"],
)
CDR = "qermit/clifford_noise_characterisation/"
p(
    "C22",
    "Clifford data regression recovers the noise model from faithful training data",
    "Training circuits have the registers, gates and permutation of the circuit, keep at most the requested number of non-Clifford rotations, change the others to Clifford angles only, nearer ones with the higher weights of the cited distribution, and are the same for the same seed. Simulator and device get the same training circuits with the shots and observable of their experiment. A noise model which is a polynomial of the fitted degree for each experiment and Pauli string is undone exactly, and results without a model or rejected by the likelihood function have no influence; training data too far from the results is reported.",
    ["inputs", "programs"],
    "all circuits, observables, numbers of training circuits and pairs; polynomial noise models of degree one and two",
    "tests use fixed circuits and check gate counts or the direction of the correction",
    [CDR + "ccl.py", CDR + "cdr_post.py"],
    [("gen_CDR_MitEx", CDR + "ccl.py"), ("gen_state_circuits", CDR + "ccl.py"), ("cdr_calibration_task_gen", CDR + "cdr_post.py")],
    ["gen_CDR_MitEx(...).run", "gen_state_circuits"],
)
p(
    "C23",
    "DFSC undoes damping of expectation values which the Clifford circuits share",
    "For every list of experiments whose circuits are Clifford once their symbols are zero, each Pauli string is characterised by a circuit which is that of the experiment with zero angles and a preparation in front, and whose noise-free expectation of the string is one in magnitude. The corrected value is the noisy one over the averaged magnitude of the characterisation, above the tolerance, for exactly the requested strings, per experiment and in order, with coefficients and symbol values respected. A device which damps each string alike for all circuits of an experiment, or depolarises globally, is thus corrected exactly, and the experiments given stay as they are.",
    ["inputs", "programs"],
    "all Clifford-with-symbols circuits (boxes, rotations of several qubits, implicit permutations, barriers), operators, thresholds and damping factors",
    "tests compare one fixed circuit with a tolerance",
    [CDR + "dfsc.py"],
    [("gen_DFSC_MitEx", CDR + "dfsc.py"), ("DFSC_circuit_task_gen", CDR + "dfsc.py"), ("DFSC_correction_task_gen", CDR + "dfsc.py")],
    ["gen_DFSC_MitEx(...).run"],
)
p(
    "C24",
    "Error cancellation learns from faithful training circuits and inserts each error",
    "For every list of experiments, learning-based probabilistic error cancellation runs each circuit without and with every Pauli error around every two-qubit gate, once each, and trains on as many Clifford circuits per Pauli string as requested, which have the same qubits and two-qubit gates at the same places, gates only where the circuit has them, and a non-zero noise-free expectation. The quasi-probabilities are a least-squares solution for the training circuits of their own experiment and string, and each mitigated value combines the values of the same string with them. So on a device whose damping of a string the training circuits determine the exact value is returned, the same seed leads to the same training circuits, and the experiments given stay as they are.",
    ["inputs", "programs"],
    "all circuits of one- and two-qubit gates with at least one of each, operators, numbers of training circuits, damping factors and compilation levels",
    "tests check the counts of circuits and one fixed example",
    [PEC + "pec_learning_based.py"],
    [("gen_PEC_learning_based_MitEx", PEC + "pec_learning_based.py"), ("gen_get_clifford_training_set", PEC + "pec_learning_based.py"), ("gen_get_noisy_circuits", PEC + "pec_learning_based.py"), ("learn_quasi_probs_task_gen", PEC + "pec_learning_based.py")],
    ["gen_PEC_learning_based_MitEx(...).run"],
)
SF = "qermit/spectral_filtering/"
p(
    "C25",
    "Spectral filtering filters and interpolates exactly the measured landscape",
    "For every list of experiments with symbols and every number of values, spectral filtering executes each experiment once at every point of the grid of equally spaced symbol values, with its own shots and operator. For each string it returns the value at the experiment's symbol values obtained by filtering the spectrum of exactly these results and interpolating linearly, so unfiltered results at a grid point are the exact values on a noise-free device. Order and number of symbols, other experiments in the list and earlier runs make no difference, and the experiments given stay as they are.",
    ["inputs", "configurations"],
    "all circuits with one to three symbols, operators, numbers of values, thresholds and filters, symbol values inside the grid",
    "tests of single tasks use constant or sine-shaped data; the only full run has a known value at one point",
    [SF + "spectral_filtering.py", SF + "signal_filter.py"],
    [("gen_spectral_filtering_MitEx", SF + "spectral_filtering.py"), ("SmallCoefficientSignalFilter", SF + "signal_filter.py")],
    ["gen_spectral_filtering_MitEx(...).run", "SignalFilter"],
)
