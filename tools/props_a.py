"""Source of the first part of properties.jsonl (see tools/mk.py)."""
P = []


def _mk(L):
    def p(id, title, statement, over, text, why, files, mech, observe=()):
        L.append(
            {
                "id": id,
                "title": title,
                "statement": statement,
                "quantifier": {"over": over, "text": text},
                "why_tests_cant": why,
                "anchors": {
                    "files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": list(observe),
                    "hook_needed": None,
                },
            }
        )

    return p


p = _mk(P)
TG = "qermit/taskgraph/"

p(
    "C01",
    "A composed task graph computes the composition of its parts, wire by wire",
    "For any sequence of graph-building calls (append, prepend, parallel, adding wires, wrapping a graph in a graph, copying), running the resulting graph delivers to every task exactly the values its construction connected to it, argument by argument in wire order, and returns the values of the open output wires in wire order. Every task runs exactly once per run, a later run with other inputs gives the results for those inputs, and building with a graph or task never changes what another graph that uses or was copied from it computes. The reported wire counts and task list describe the graph, and a composition whose wire counts do not match is refused without changing the graph.",
    ["programs", "histories"],
    "all programs of graph-building calls over several graphs and tasks of arbitrary arity, sharing tasks and subgraphs, and all inputs",
    "tests build about a dozen fixed graphs, mostly with one wire per edge; wire order, multi-wire edges, shared tasks and repeated runs are a product space",
    [TG + "task_graph.py", TG + "mittask.py"],
    [("append/prepend/parallel/add_wire", TG + "task_graph.py"), ("run: topological execution over edge data", TG + "task_graph.py"), ("MitTask.__call__", TG + "mittask.py")],
    ["TaskGraph.run", "TaskGraph.tasks", "TaskGraph.n_in_wires", "TaskGraph.n_out_wires"],
)
p(
    "C02",
    "Flattening nested task graphs never changes what they compute",
    "Decomposing the nested graphs of a task graph, at any moment of its construction and at any nesting depth, leaves no nested graph behind, keeps the number of input and output wires, and leaves the outputs for every input unchanged. Graphs that were used as parts keep working on their own afterwards, and the flattened graph can be extended, run, copied and decomposed again like any other.",
    ["programs", "histories"],
    "all programs as in C01 with decomposition at arbitrary points, nested to several levels, with the same subgraph used more than once",
    "tests flatten three fixed graphs and look at node counts; equality of computed values over nestings is not sampled",
    [TG + "task_graph.py"],
    [("decompose_TaskGraph_nodes", TG + "task_graph.py"), ("_decompose / edge relabelling", TG + "task_graph.py")],
    ["TaskGraph.decompose_TaskGraph_nodes", "TaskGraph.run"],
)
p(
    "C04",
    "Result cache and characterisation data of a task graph run are faithful",
    "Running a graph with caching returns the same outputs as running it without, and records for every task, under its label, exactly the outputs it produced in that run; nothing is recorded when caching is off. Characterisation data given to a run or to the graph is visible to every task, what a task adds or overwrites is visible to all tasks that run after it, and after the run the graph's characterisation holds everything that was given or added. Data given to a graph also stays with it when the graph is copied, made into a MitRes or MitEx, nested in others or flattened.",
    ["programs", "histories"],
    "all graphs of tasks that read and write characterisation data, with repeated labels, nesting and repeated runs with different inputs",
    "tests check one linear graph and one characterisation entry",
    [TG + "task_graph.py", TG + "mittask.py"],
    [("run(cache, characterisation)", TG + "task_graph.py"), ("get_cache", TG + "task_graph.py"), ("characterisation property of tasks", TG + "mittask.py")],
    ["TaskGraph.run", "TaskGraph.get_cache", "TaskGraph.characterisation"],
)
p(
    "C05",
    "Shot splitting conserves every shot of every circuit and respects the job limit",
    "For every list of circuits, shot requests and limit of shots per job, no submitted job exceeds the limit and the jobs submitted for a circuit have shots summing exactly to the request. The single result returned for each circuit, in the order of the circuits, is the sum of exactly the results of its own jobs: bit by bit and outcome by outcome, whatever the order of bits in the results and whether the device reports shots or counts.",
    ["inputs", "configurations"],
    "all lists of circuits (including the empty list), shots and limits, all bit orders and result kinds",
    "tests use a few shot numbers with deterministic circuits, so permuted bits, mixed-up circuits and exact multiples of the limit are not seen",
    [TG + "mitres.py"],
    [("split_shots_task_gen", TG + "mitres.py"), ("group_shots_task_gen", TG + "mitres.py"), ("gen_shot_split_MitRes / gen_compiled_shot_split_MitRes", TG + "mitres.py")],
    ["jobs received by the backend", "MitRes.run"],
)
p(
    "C06",
    "Without noise the default MitEx returns exact expectation values",
    "For every list of experiments (circuit, operator, symbol values) run through an unmitigated MitEx or the basic expectation function, over any of the provided MitRes, the returned list has one operator per experiment, in order, over exactly the requested Pauli strings, and each coefficient is the coefficient given times the expectation value of the string in the state the circuit prepares. Qubit names, coefficients, identity strings, explicit identities, trackers shared between experiments or holding measurement circuits, and the optimisation level make no difference, and the experiments passed in are left unchanged.",
    ["inputs", "configurations"],
    "all circuits (with symbols), all operators and coefficients, all qubit namings, all provided MitRes and compilation levels; the device is an exact simulator",
    "tests fix two or three two-qubit circuits with strings ZZ/XX on sampled shots",
    [TG + "mitex.py", TG + "utils.py", TG + "mitres.py"],
    [("gen_MitEx tasks: filter, collate, expectations", TG + "mitex.py"), ("ObservableTracker, MeasurementCircuit, SymbolsDict", TG + "utils.py")],
    ["MitEx.run", "MitEx.run_basic"],
)
p(
    "C07",
    "Measurement reduction gives the same expectation values with no more circuits",
    "For every list of experiments and every partitioning strategy, colouring method and CX configuration, measurement reduction yields for each experiment exactly the expectation values (with coefficients) that measuring every string separately yields, for exactly the requested strings. It never executes more circuits than there are strings, and strings sharing a circuit are read off with the correct bits and sign. The experiments passed in and a MitEx passed in to be wrapped are not changed.",
    ["inputs", "configurations"],
    "all sets of Pauli strings on up to four qubits with coefficients, all strategies and circuits",
    "tests use one three-qubit operator and default options",
    [TG + "measurement_reduction.py", TG + "utils.py"],
    [("measurement_reduction_task_gen", TG + "measurement_reduction.py"), ("ObservableTracker.add_measurement_circuit / get_expectations", TG + "utils.py")],
    ["gen_MeasurementReduction_MitEx(...).run"],
)
p(
    "C08",
    "Observable and symbol bookkeeping agrees with a simple dictionary of strings",
    "After any history of creating, copying, extending, rescaling, removing from, clearing and adding measurement circuits to observable trackers, the strings, coefficients, measurement circuits and unmeasured strings a tracker reports are those of that history applied to that tracker alone, and the expectation values it computes from results are the parities of the recorded bits times the sign and coefficient. Symbol dictionaries likewise report exactly the symbols and values they were given, copies are independent, and substituting them into a circuit replaces exactly those symbols.",
    ["histories", "inputs"],
    "all histories of calls over several trackers, copies of trackers and symbol dictionaries",
    "tests call each method once on a fresh object; sharing between objects and interleavings are not sampled",
    [TG + "utils.py"],
    [("ObservableTracker", TG + "utils.py"), ("SymbolsDict", TG + "utils.py"), ("MeasurementCircuit", TG + "utils.py")],
    ["ObservableTracker methods", "SymbolsDict methods", "MeasurementCircuit.get_parametric_circuit"],
)
Z = "qermit/zero_noise_extrapolation/zne.py"
p(
    "C09",
    "Folding keeps the unitary of a circuit and scales its gate count as promised",
    "For every circuit (any gates with an inverse, barriers, symbols, qubit names, global phase, implicit wire permutations) each folding method returns a circuit on the same qubits implementing the same unitary up to global phase, and does not change the circuit passed in. Circuit folding by an odd factor multiplies the gate count by it; odd-gate folding folds every second gate; gate folding and two-qubit-gate folding reach exactly (#gates+2i)/#gates when it is asked for and otherwise the closest such value below. Unachievable or invalid scalings and circuits that cannot be folded are refused as documented.",
    ["inputs"],
    "all circuits and noise scaling factors, all folding methods, all random choices of folded gates",
    "tests fold three fixed circuits by two or three factors",
    [Z, "qermit/noise_model/pauli_error_transpile.py"],
    [("Folding.circuit/gate/odd_gate/two_qubit_gate/noise_aware", Z)],
    ["circuits returned by Folding members"],
)
F = "qermit/frame_randomisation/frame_randomisation.py"
p(
    "C21",
    "Frame randomisation never changes what is measured",
    "Every randomised instance of a circuit, for the Pauli and the universal scheme, yields after the accompanying post-processing exactly the outcome distribution of the original circuit over the same classical bits, and the number of instances and the shots given to them are as requested. Run end to end without noise, the result for every circuit, in order, is distributed as the original circuit's, with the shots of its own instances added up bit by bit.",
    ["inputs", "configurations"],
    "all circuits measured into arbitrary bits, all random frames, numbers of samples and shots, all bit orders in results",
    "tests run deterministic circuits whose outcome is the same under many wrong corrections",
    [F],
    [("FrameRandomisation", F), ("frame_randomisation_circuits_task_gen / frame_randomisation_result_task_gen", F), ("gen_Frame_Randomisation_MitRes", F)],
    ["gen_Frame_Randomisation_MitRes(...).run"],
)
