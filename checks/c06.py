"""Unmitigated expectation values are exact on a noise-free device."""

from checks.exps import NSHOTS, build_exp, compare, experiment_st, make, run_tracked, tracked_st, with_twins
from hypothesis import strategies as st
from lib import gen
from lib.backends import RecordingBackend
from lib.pbt import Part, check
from pytket import Qubit
from pytket.pauli import Pauli, QubitPauliString
from pytket.utils import QubitPauliOperator
from qermit import AnsatzCircuit, CircuitShots, MitEx, MitRes, ObservableExperiment, ObservableTracker, SymbolsDict
from qermit.taskgraph import gen_compiled_MitRes, gen_compiled_shot_split_MitRes

PROPERTY = "C06"
RULE = (
    "A case is 1-3 experiments (1-3 qubit circuit with arbitrary qubit names, compiled to devices of other qubits or connected in a line, optionally symbolic angles; operator of 1-4 Pauli strings with "
    "coefficients, identity strings and explicit identities included) run through MitEx with one of several MitRes on an exact backend, compared "
    "with a dense reference; and repeated; trackers: experiments sharing a tracker, or with measurement circuits in their trackers. Non-trivial: some expectation value is neither 0 nor +-coefficient, or there are several experiments."
)

case_st = st.fixed_dictionaries(
    {
        "exps": with_twins(gen.some(experiment_st(big=(8, 24)), 3)),
        "mitres": st.sampled_from(
            ["default", "raw", "c0", "c1", "c2", "split"]
        ),
        "kind": st.sampled_from(["plain", "flatten", "routed"]),
        "how": st.sampled_from(["run", "run", "call", "basic"]),
        "again": st.booleans(),
    }
)


def mk(case):
    m = case["mitres"]
    # the device takes compiled circuits only, except from a MitRes that does not compile
    be = RecordingBackend(compile_kind=case["kind"], strict=m != "raw")
    if m == "default":
        return be, MitEx(be)
    if m == "raw":
        return be, MitEx(be, mitres=MitRes(be))
    if m == "split":
        return be, MitEx(be, mitres=gen_compiled_shot_split_MitRes(be, 20000))
    return be, MitEx(be, mitres=gen_compiled_MitRes(be, int(m[1])))


def run(case):
    be, me = mk(case)
    shots = 40000 if case["mitres"] == "split" else NSHOTS
    tol = 5e-3 if case["mitres"] == "split" else 1e-6
    be.as_shots = case["mitres"] == "split"
    made, pool = [], []
    for i, e in enumerate(case["exps"]):
        if case["how"] == "basic":
            e = dict(e, syms=[])
        made.append((make(e, shots + i, pool=pool), e))
    wires = [m[0][0] for m in made]
    keep = [
        (
            w.AnsatzCircuit.Circuit.copy(),
            w.AnsatzCircuit.Shots,
            dict(m[0][1]._dict),
            dict(w.AnsatzCircuit.SymbolsDict.get_symbolic_map([0] * 9)),
        )
        for w, m in zip(wires, made)
    ]
    for rep in range(2 if case["again"] else 1):
        n0 = len(be.jobs)
        if case["how"] == "run":
            res = me.run(wires)
        elif case["how"] == "call":
            res = me([wires])[0]
        else:
            res = me.run_basic(
                [
                    (
                        CircuitShots(w.AnsatzCircuit.Circuit, w.AnsatzCircuit.Shots),
                        m[0][1],
                    )
                    for w, m in zip(wires, made)
                ]
            )
        check(len(res) == len(wires), "%d results for %d experiments" % (len(res), len(wires)))
        for i, (r, m) in enumerate(zip(res, made)):
            compare(
                r,
                m[0][2],
                tol * max(1, max(abs(c) for _, c in m[1]["terms"])),
                "experiment %d of %d, run %d" % (i, len(res), rep),
            )
        for w, m, k in zip(wires, made, keep):
            check(
                w.AnsatzCircuit.Circuit == k[0] and w.AnsatzCircuit.Shots == k[1],
                "the experiment's circuit was changed by the run",
            )
            check(dict(m[0][1]._dict) == k[2], "the operator was changed by the run")
            check(
                dict(w.AnsatzCircuit.SymbolsDict.get_symbolic_map([0] * 9)) == k[3],
                "the symbols were changed by the run",
            )
        if case["mitres"] not in ("split",):
            want = {shots + i for i in range(len(wires))}
            check(
                {s for _, s in be.jobs[n0:]} <= want,
                "jobs with %r shots, experiments ask for %r"
                % ({s for _, s in be.jobs[n0:]}, want),
            )
    nt = len(wires) > 1 or any(
        1e-6 < abs(v) < abs(dict(m[0][1]._dict)[s]) - 1e-6
        for m in made
        for s, v in m[0][2].items()
    )
    return {
        "nontrivial": nt,
        "labels": [case["mitres"], case["how"], "exps%d" % len(wires)]
        + (["symbolic"] if any(e["syms"] for e in case["exps"]) else [])
        + (
            ["identity"]
            if any(set(l) == {"I"} for e in case["exps"] for l, _ in e["terms"])
            else []
        ),
    }


missing_st = st.fixed_dictionaries(
    {
        "circ": gen.circuit_st(1, 2, 4, 1, naming=("q", "named")),
        "where": st.integers(0, 1),
        "pauli": st.sampled_from("XYZ"),
        "extra": st.sampled_from(["zz", "q"]),
    }
)


def run_missing(case):
    be = RecordingBackend()
    c = gen.build(case["circ"])
    q = Qubit(case["extra"], 17)
    op = QubitPauliOperator(
        {
            QubitPauliString({q: gen.P[case["pauli"]]}): 1.0,
            QubitPauliString({c.qubits[0]: Pauli.Z}): 1.0,
        }
    )
    try:
        MitEx(be).run(
            [
                ObservableExperiment(
                    AnsatzCircuit(c, 10, SymbolsDict()), ObservableTracker(op)
                )
            ]
        )
    except Exception:
        check(not be.jobs, "jobs were run before the missing qubit was noticed")
        return {}
    check(False, "an observable on a qubit the circuit does not have was accepted")


def run_trackers(case):
    shared, pre = run_tracked(case, MitEx(RecordingBackend()))
    return {"nontrivial": shared or pre, "labels": ["shared"] * shared + ["measured"] * pre}


PARTS = [
    Part("mitex", case_st, run, quick=800, thorough=20000, shards=8),
    Part("trackers", tracked_st(), run_trackers, quick=400, thorough=8000, shards=8),
    Part("missing_qubit", missing_st, run_missing, quick=40, thorough=200, shards=1),
]
