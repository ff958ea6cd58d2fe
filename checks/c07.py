"""Measurement reduction."""

from checks.exps import compare, experiment_st, make, run_tracked, tracked_st, with_twins
from hypothesis import strategies as st
from lib import gen
from lib.backends import RecordingBackend
from lib.pbt import Part, check
from pytket.partition import GraphColourMethod, PauliPartitionStrat
from pytket.transform import CXConfigType
from qermit import MitEx
from qermit.taskgraph import gen_compiled_MitRes, gen_MeasurementReduction_MitEx
from qermit.taskgraph.measurement_reduction import measurement_reduction_task_gen

PROPERTY = "C07"
RULE = (
    "A case is 1-2 experiments with 1-8 Pauli strings on 1-4 qubits, a partitioning strategy, colouring method and CX configuration, "
    "optionally a MitEx to wrap; the reduced experiment is compared with exact expectation values and the number of executed circuits with "
    "the number of strings; trackers: experiments sharing a tracker, or with measurement circuits in their trackers. Non-trivial: at least two strings shared one circuit."
)

STRAT = {
    "default": None,
    "qwc": PauliPartitionStrat.NonConflictingSets,
    "comm": PauliPartitionStrat.CommutingSets,
}
METH = {
    "default": None,
    "lazy": GraphColourMethod.Lazy,
    "largest": GraphColourMethod.LargestFirst,
    "exhaustive": GraphColourMethod.Exhaustive,
}
CX = {
    "default": None,
    "snake": CXConfigType.Snake,
    "tree": CXConfigType.Tree,
    "star": CXConfigType.Star,
}

case_st = st.fixed_dictionaries(
    {
        "exps": with_twins(gen.some(experiment_st(
                max_n=4, max_gates=8, min_weight=0, max_terms=8, big=(6, 16), **gen.UNIVERSAL
            ), 2)),
        "strat": st.sampled_from(sorted(STRAT)),
        "meth": st.sampled_from(sorted(METH)),
        "cx": st.sampled_from(sorted(CX)),
        "wrap": st.booleans(),
    }
)


def run(case):
    be = RecordingBackend()
    kw = {}
    if STRAT[case["strat"]] is not None:
        kw["strategy"] = STRAT[case["strat"]]
    if METH[case["meth"]] is not None:
        kw["method"] = METH[case["meth"]]
    if CX[case["cx"]] is not None:
        kw["cx_config"] = CX[case["cx"]]
    user = None
    if case["wrap"]:
        user = MitEx(be, _label="Mine", mitres=gen_compiled_MitRes(be, 0))
        kw["mitex"] = user
    me = gen_MeasurementReduction_MitEx(be, **kw)
    pool = []
    made = [make(dict(e, keep_i=True), pool=pool) for e in case["exps"]]
    shared = 0
    for rep in range(2):
        n0 = len(be.jobs)
        res = me.run([m[0] for m in made])
        check(len(res) == len(made), "%d results for %d experiments" % (len(res), len(made)))
        for i, (r, m, e) in enumerate(zip(res, made, case["exps"])):
            compare(
                r,
                m[2],
                1e-6 * max(1, max(abs(c) for _, c in e["terms"])),
                "experiment %d, run %d" % (i, rep),
            )
        nstr = sum(len(m[2]) for m in made)
        njob = len(be.jobs) - n0
        check(
            njob <= nstr,
            "%d circuits run for %d strings" % (njob, nstr),
        )
        shared = nstr - njob
        if len(case["exps"]) == 1:
            # strings of one operator whose supports agree qubit-wise need one circuit
            t = case["exps"][0]["terms"]
            compatible = all(
                len({l[k] for l, _ in t} - {"I"}) <= 1
                for k in range(case["exps"][0]["circ"]["n"])
            )
            if compatible:
                check(
                    njob == 1,
                    "%d circuits run for %r, which are diagonal in one product basis"
                    % (njob, t),
                )
    if user is not None:
        n0 = len(be.jobs)
        if not case["exps"]:
            return {"nontrivial": False}
        e = dict(case["exps"][0], keep_i=True)
        m = make(e)
        r = user.run([m[0]])
        compare(r[0], m[2], 1e-5 * max(1, max(abs(c) for _, c in e["terms"])), "the wrapped MitEx, run on its own")
        check(
            user.label == "Mine" and len(be.jobs) - n0 == len(m[2]),
            "the MitEx passed in was changed: label %r, %d circuits for %d strings"
            % (user.label, len(be.jobs) - n0, len(m[2])),
        )
    return {
        "nontrivial": shared > 0,
        "labels": [case["strat"], case["meth"], case["cx"], "wrap" if user else "own"],
    }


def run_task(case):
    """the task alone: every string gets exactly one measurement, grouped strings commute"""
    t = measurement_reduction_task_gen(
        STRAT[case["strat"]] or PauliPartitionStrat.NonConflictingSets,
        METH[case["meth"]] or GraphColourMethod.Lazy,
        CX[case["cx"]] or CXConfigType.Snake,
    )
    pool = []
    made = [make(dict(e, keep_i=True), pool=pool) for e in case["exps"]]
    (out,) = t([[m[0] for m in made]])
    check(len(out) == len(made), "%d wires from %d" % (len(out), len(made)))
    grouped = False
    for w, m in zip(out, made):
        tr = w.ObservableTracker
        check(not tr.get_empty_strings(), "strings %r left unmeasured" % (tr.get_empty_strings(),))
        idx = {}
        for s in m[2]:
            mcs = tr.get_measurement_circuits(s)
            check(len(mcs) == 1, "string %s has %d measurement circuits" % (s, len(mcs)))
            idx.setdefault(id(mcs[0]), []).append(s)
        for ss in idx.values():
            grouped |= len(ss) > 1
            for a in ss:
                for b in ss:
                    check(
                        a.commutes_with(b), "%s and %s share a circuit but anticommute" % (a, b)
                    )
    return {"nontrivial": grouped, "labels": [case["strat"]]}


def run_trackers(case):
    shared, pre = run_tracked(case, gen_MeasurementReduction_MitEx(RecordingBackend()))
    return {"nontrivial": shared or pre, "labels": ["shared"] * shared + ["measured"] * pre}


PARTS = [
    Part("mitex", case_st, run, quick=800, thorough=20000, shards=8),
    Part("trackers", tracked_st(), run_trackers, quick=400, thorough=8000, shards=8),
    Part("task", case_st, run_task, quick=400, thorough=8000),
]
