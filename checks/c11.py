"""Zero noise extrapolation end to end."""

from checks.exps import NSHOTS, compare, experiment_st, make, with_twins
import numpy as np
from hypothesis import strategies as st
from lib import gen, refsim
from lib.backends import RecordingBackend
from lib.pbt import Part, Skip, check
from pytket import OpType
from pytket.predicates import CompilationUnit
from qermit import MitEx, MitRes, ObservableTracker
from qermit.zero_noise_extrapolation import Fit, Folding, gen_ZNE_MitEx
from qermit.zero_noise_extrapolation.zne import gen_noise_scaled_mitex

PROPERTY = "C11"
RULE = (
    "A case is 1-3 experiments (1-3 qubits, any qubit names, symbols, operators of 1-4 strings with coefficients), 2-4 noise scalings starting at 1 "
    "in any order, a folding type, an optimisation level 0-2, a fit, and a backend that keeps, relabels or routes qubits; run on a noise-free exact "
    "backend (all folding types) or one whose signal is damped linearly in the number of executed two-qubit gates (circuit and two-qubit folding). "
    "Non-trivial: some expectation value is neither 0 nor extremal, or there are several experiments."
)

FOLD = {
    "circuit": Folding.circuit,
    "gate": Folding.gate,
    "odd_gate": Folding.odd_gate,
    "two_qubit_gate": Folding.two_qubit_gate,
}


@st.composite
def case_st(draw, damped=False):
    f = draw(st.sampled_from(["circuit", "two_qubit_gate"] if damped else sorted(FOLD)))
    if f == "circuit":
        pool = [3, 5, 7]
    elif f == "odd_gate":
        pool = [2, 3, 4]
    else:
        pool = [3, 5, 7] if damped else [1.5, 2, 2.6, 3, 3.5]
    scal = [1] + draw(st.lists(st.sampled_from(pool), min_size=1, max_size=3, unique=True))
    scal = list(draw(st.permutations(scal)))
    return {
        "exps": draw(
            with_twins(gen.some(experiment_st(max_gates=6, naming=gen.NAMES, big=(4, 15)), 3))
        ),
        "scal": scal,
        "fold": f,
        "fit": draw(st.sampled_from(["linear", "polynomial", "richardson"])),
        "level": draw(st.integers(0, 2)),
        "relabel": draw(st.sampled_from(["plain", "flatten", "routed"])),
        "twice": draw(st.booleans()),
        "seed": draw(st.sampled_from([None, 3])),
        "mitres": draw(st.sampled_from(["default", "mitres", "mitex"])),
    }


def n_two(circ):
    return sum(1 for c in circ.get_commands() if c.op.type == OpType.CX)


EPS = 0.002


def run(case, damped=False):
    if damped:

        def hook(circ, d):
            f = 1 - EPS * n_two(circ)
            k = len(circ.bits)
            out = {b: f * v for b, v in d.items()}
            for i in range(2**k):
                b = tuple((i >> j) & 1 for j in range(k))
                out[b] = out.get(b, 0) + (1 - f) / 2**k
            return out

        be = RecordingBackend(dist_hook=hook)
    else:
        be = RecordingBackend()
    be.compile_kind = case["relabel"]
    pool = []
    made = [make(e, NSHOTS + i, pool=pool) for i, e in enumerate(case["exps"])]
    for m in made:
        c = m[0].AnsatzCircuit.Circuit.copy()
        be.default_compilation_pass(case["level"]).apply(c)
        if c.n_gates == 0:
            raise Skip("compiled circuit is empty")
        if c.n_qubits < m[0].AnsatzCircuit.Circuit.n_qubits:
            raise Skip("device compilation drops an idle qubit")
        if case["fold"] == "two_qubit_gate" and n_two(c) == 0:
            raise Skip("no two-qubit gate to fold")
        if damped and max(case["scal"]) * n_two(c) * EPS > 0.9:
            raise Skip("too many gates")
    kw = {}
    if case["mitres"] == "mitres":
        kw["experiment_mitres"] = MitRes(be)
    elif case["mitres"] == "mitex":
        kw["experiment_mitex"] = MitEx(be, _label="x", mitres=MitRes(be))
    me = gen_ZNE_MitEx(
        be,
        list(case["scal"]),
        folding_type=FOLD[case["fold"]],
        fit_type=getattr(Fit, case["fit"]),
        deg=1,
        optimisation_level=case["level"],
        seed=case["seed"],
        **kw,
    )
    wires = [m[0] for m in made]
    keep = [(w.AnsatzCircuit.Circuit.copy(), dict(m[1]._dict)) for w, m in zip(wires, made)]
    for rep in range(2 if case["twice"] else 1):
        n0 = len(be.jobs)
        try:
            res = me.run(wires)
        except RuntimeError as e:
            # pytket merges symbolic rotations into atan2 terms, which it cannot evaluate
            # at (0, 0); the values of the symbols are then singular for its compiler
            if str(e) == "Not Implemented" and any(x["syms"] for x in case["exps"]):
                raise Skip("pytket's symbolic compilation is singular at these values")
            raise
        check(len(res) == len(wires), "%d results for %d experiments" % (len(res), len(wires)))
        for i, (r, m, e) in enumerate(zip(res, made, case["exps"])):
            big = max(1, max(abs(c) for _, c in e["terms"]))
            compare(
                r,
                m[2],
                (1e-4 if damped else 1e-5) * big,
                "ZNE %s, experiment %d, run %d" % (case["fold"], i, rep),
            )
        for w, m, k in zip(wires, made, keep):
            check(w.AnsatzCircuit.Circuit == k[0], "the experiment's circuit was changed")
            check(dict(m[1]._dict) == k[1], "the operator was changed")
        # every scaling is run once for every string to measure
        check(
            len(be.jobs) - n0 == len(case["scal"]) * sum(n_meas(m[2]) for m in made),
            "%d circuits executed for %r scalings and %d strings"
            % (len(be.jobs) - n0, case["scal"], sum(n_meas(m[2]) for m in made)),
        )
    nt = len(wires) > 1 or any(
        1e-6 < abs(v) < abs(dict(m[1]._dict)[s]) - 1e-6 for m in made for s, v in m[2].items()
    )
    return {
        "nontrivial": nt,
        "labels": [case["fold"], "level%d" % case["level"], case["relabel"]]
        + (["moved"] if any(moved(be, case, m) for m in made) else [])
        + (["implicit"] if any(implicit(be, case, m) for m in made) else []),
    }


def implicit(be, case, m):
    c = m[0].AnsatzCircuit.Circuit.copy()
    be.default_compilation_pass(case["level"]).apply(c)
    return any(a != b for a, b in c.implicit_qubit_permutation().items())


def moved(be, case, m):
    cu = CompilationUnit(m[0].AnsatzCircuit.Circuit.copy())
    be.default_compilation_pass(case["level"]).apply(cu)
    return cu.initial_map != cu.final_map


def n_meas(exact):
    return sum(1 for s in exact)


def run_damped(case):
    return run(case, True)


# ---- a single noise scaled MitEx
def run_scaled(case):
    """gen_noise_scaled_mitex on its own scales the damping and nothing else"""
    be = RecordingBackend()
    seen = []
    be.dist_hook = lambda circ, d: (seen.append(n_two(circ)), d)[1]
    e = dict(case["exp"])
    made = make(e)
    c = made[0].AnsatzCircuit.Circuit
    be.default_compilation_pass(0).apply(c)
    n = n_two(c)
    if n == 0 and case["fold"] == "two_qubit_gate":
        raise Skip("no two-qubit gate to fold")
    if c.n_gates == 0:
        raise Skip("compiled circuit is empty")
    me = gen_noise_scaled_mitex(be, case["s"], folding_type=FOLD[case["fold"]])
    res = me.run([made[0]])
    check(len(res) == 1, "%d results" % len(res))
    compare(res[0], made[2], 1e-5 * max(1, max(abs(x) for _, x in e["terms"])), "noise scaled MitEx")
    for k in seen:
        check(
            k == n * case["s"],
            "%s folding by %d: executed circuit has %d two-qubit gates, circuit has %d" % (case["fold"], case["s"], k, n),
        )
    return {"nontrivial": n > 0 and case["s"] > 1, "labels": [case["fold"]]}


scaled_st = st.fixed_dictionaries(
    {
        "exp": experiment_st(max_gates=6, naming=gen.NAMES, big=(4, 15)),
        "s": st.sampled_from([1, 3, 5]),
        "fold": st.sampled_from(["circuit", "two_qubit_gate"]),
    }
)


# ---- merging the circuits a folding gives for one experiment
def run_merge(case):
    from pytket.utils import QubitPauliOperator
    from qermit.zero_noise_extrapolation.zne import merge_experiments_task_gen

    rng = np.random.default_rng(case["seed"])
    qs = gen.qubits_of(case["n"], case["names"])
    strs = [[gen.qps(l, qs) for l in e["strings"]] for e in case["exps"]]
    index = [i for i, e in enumerate(case["exps"]) for _ in range(e["copies"])]
    if case["shuffle"]:
        index = [int(x) for x in rng.permutation(index)]
    vals = [{s: float(rng.uniform(-2, 2)) for s in (strs[i] if case["seed"] % 2 else reversed(strs[i]))} for i in index]
    (out,) = merge_experiments_task_gen()(([QubitPauliOperator(dict(v)) for v in vals], list(index)))
    check(len(out) == len(strs), "%d merged results for %d experiments" % (len(out), len(strs)))
    for i, o in enumerate(out):
        check(set(o._dict) == set(strs[i]), "strings of merged result %d" % i)
        for s in strs[i]:
            want = float(np.mean([v[s] for v, j in zip(vals, index) if j == i]))
            check(abs(complex(o._dict[s]) - want) < 1e-9, lambda: "merged value %r of experiment %d, mean %r" % (o._dict[s], i, want))
    return {"nontrivial": len({e["copies"] for e in case["exps"]}) > 1, "labels": ["exps%d" % len(strs)]}


merge_st = st.integers(1, 3).flatmap(
    lambda n: st.fixed_dictionaries(
        {
            "n": st.just(n),
            "names": st.sampled_from(gen.NAMES),
            "seed": st.integers(0, 10**6),
            "shuffle": st.booleans(),
            "exps": st.lists(
                st.fixed_dictionaries({"strings": st.lists(gen.letters_st(n), min_size=1, max_size=4, unique=True), "copies": st.integers(1, 4)}),
                min_size=1,
                max_size=5,
            ),
        }
    )
)

PARTS = [
    Part("merge", merge_st, run_merge, quick=600, thorough=20000, shards=4),
    Part("noise_free", case_st(), run, quick=500, thorough=12000, shards=8),
    Part("damped", case_st(True), run_damped, quick=400, thorough=10000, shards=8),
    Part("scaled", scaled_st, run_scaled, quick=150, thorough=3000, shards=4),
]
