"""Clifford data regression: training circuits, calibration and correction."""

import random
import warnings

import numpy as np
from checks import exps
from checks.exps import exact_values, fake_mitex
from hypothesis import strategies as st
from lib import gen, refsim
from lib.backends import RecordingBackend
from lib.pbt import Part, check
from pytket import Circuit, OpType
from pytket.circuit import CircBox
from pytket.pauli import QubitPauliString
from pytket.utils import QubitPauliOperator
from qermit import AnsatzCircuit, ObservableExperiment, ObservableTracker
from qermit.clifford_noise_characterisation.ccl import (
    LikelihoodFunction,
    ccl_likelihood_filtering_task_gen,
    ccl_result_batching_task_gen,
    gen_CDR_MitEx,
    gen_state_circuits,
    sample_weighted_clifford_angle,
)
from qermit.clifford_noise_characterisation.cdr_post import (
    _PolyCDRCorrect,
    cdr_calibration_task_gen,
    cdr_correction_task_gen,
    cdr_quality_check_task_gen,
)

PROPERTY = "C22"
RULE = (
    "A case is a circuit with the numbers of non-Clifford gates, pairs and training circuits (training circuits compared gate by gate with the original), training "
    "data of a polynomial noise model (batching, filtering, calibration and correction), or a set of experiments sent through a complete mitigation whose device is "
    "an invertible polynomial noise model per experiment and string. Non-trivial: a rotation was replaced while another was kept, the recovered model is not the "
    "identity, or a mitigated value differs from the noisy one and could be compared with the exact one."
)
TECHNIQUE = "property-based testing (Hypothesis): structural differential of training circuits, exact recovery of planted noise models, end-to-end against a reference simulation"


# ---------------------------------------------------------------- training circuits
def lines(c):
    """per wire: the sequence of (type, params, args) ignoring barriers; Rz as rotation about Z with its angle"""
    out = {u: [] for u in list(c.qubits) + list(c.bits)}
    for cmd in c.get_commands():
        if cmd.op.type in (OpType.Barrier, OpType.noop):
            continue
        e = (cmd.op.type, tuple(float(p) for p in cmd.op.params), tuple(cmd.args))
        for u in cmd.args:
            out[u].append(e)
    return out


def is_cliff(a):
    return abs(a * 2 - round(a * 2)) < 1e-9


def run_state(case):
    d = case["circ"]
    c = gen.build(d, name="orig")
    qs = gen.qubits_of(d["n"], d["names"])
    for i in case["bars"]:
        c.add_barrier([qs[i % len(qs)]])
    for g in case["more"]:
        gen.add(c, [g[0], [i % d["n"] for i in g[1]], g[2]], qs) if len({i % d["n"] for i in g[1]}) == len(g[1]) else None
    tail = case.get("tail", [])
    for i, a in enumerate(tail):
        c.Rz(a, qs[i % d["n"]])
        c.H(qs[i % d["n"]])
    if case["meas"]:
        from pytket import Bit

        for i, q in enumerate(qs):
            b = Bit("out", 2 * i)
            c.add_bit(b)
            c.Measure(q, b)
    before = c.to_dict()
    nn, npairs, total = case["n_non"], min(case["pairs"], case["n_non"]), case["total"]
    if tail:
        nn, npairs = 2 * nn, 2 * npairs
    states = gen_state_circuits(c, nn, npairs, total, seed=case["seed"])
    check(c.to_dict() == before, "gen_state_circuits changed the circuit it was given")
    check(len(states) == total, "%d training circuits, %d requested" % (len(states), total))
    again = gen_state_circuits(c, nn, npairs, total, seed=case["seed"])
    check([s.to_dict()["commands"] for s in states] == [s.to_dict()["commands"] for s in again], "the same seed gives different training circuits")
    ref = lines(c)
    rz = [cmd for cmd in c.get_commands() if cmd.op.type == OpType.Rz]
    m = sum(1 for cmd in rz if not is_cliff(cmd.op.params[0]))
    want = 0 if m <= 1 else min(nn, m - 1)
    kept_any = False
    for k, s in enumerate(states):
        check(set(s.qubits) == set(c.qubits) and set(s.bits) == set(c.bits), lambda: "training circuit %d is over %r %r" % (k, s.qubits, s.bits))
        got = lines(s)
        kept = 0
        for u in ref:
            # a zero rotation is still listed; compare wire by wire
            check(
                [(e[0], e[2]) for e in got[u]] == [(e[0], e[2]) for e in ref[u]],
                lambda: "training circuit %d differs from the circuit on %r:\n%r\n%r" % (k, u, got[u], ref[u]),
            )
            for g, r in zip(got[u], ref[u]):
                if r[0] != OpType.Rz:
                    continue
                if is_cliff(r[1][0]):
                    check(abs(g[1][0] - r[1][0]) < 1e-9, lambda: "Clifford rotation %r became %r" % (r, g))
                elif abs(g[1][0] - r[1][0]) < 1e-9:
                    kept += 1
                else:
                    check(is_cliff(g[1][0]), lambda: "rotation %r became the non-Clifford %r" % (r, g))
        check(kept == want, lambda: "training circuit %d keeps %d non-Clifford rotations of %d, requested %d" % (k, kept, m, nn))
        kept_any |= kept > 0
    return {"nontrivial": kept_any, "labels": ["m%d" % min(m, 4), d["names"]]}


def run_clifford(case):
    """Clifford circuits (boxes, names, implicit permutations) are their own training circuits"""
    d = case["circ"]
    c = gen.build(d)
    if case["boxed"]:
        o = Circuit()
        for q in c.qubits:
            o.add_qubit(q)
        inner = c.copy()
        inner.flatten_registers()
        o.add_gate(CircBox(inner), list(c.qubits))
        c = o
    if case["perm"] and d["n"] > 1:
        c.SWAP(c.qubits[0], c.qubits[1])
        c.replace_SWAPs()
    u = refsim.unitary(c)
    before = c.to_dict()
    states = gen_state_circuits(c, case["n_non"], min(case["pairs"], case["n_non"]), case["total"], seed=1)
    check(c.to_dict() == before, "gen_state_circuits changed the circuit it was given")
    check(len(states) == case["total"], "number of training circuits")
    for s in states:
        check(s.qubits == c.qubits, lambda: "qubits %r, circuit %r" % (s.qubits, c.qubits))
        check(refsim.equal_up_to_phase(refsim.unitary(s), u), "the training circuit of a Clifford circuit is not equivalent to it")
    return {"nontrivial": d["n"] > 1, "labels": ["boxed"] * case["boxed"] + ["perm"] * case["perm"]}


def run_angles(case):
    """the angle replacing a rotation is drawn with weights that fall with the square of the distance of the rotations"""
    a = case["angle"]
    n = 1500
    random.seed(case["seed"])
    got = [sample_weighted_clifford_angle(a) for _ in range(n)]
    again = [sample_weighted_clifford_angle(a, seed=case["seed"]) for _ in range(3)]
    check(len(set(again)) == 1, "the angle for %r differs for the same seed: %r" % (a, again))
    check(all(x in (0, 0.5, 1, 1.5) for x in got + again), "angles %r are not Clifford" % (set(got),))
    b = a % 2
    if b > 1.75:
        # nearest to a full turn, which is the identity up to a sign
        return {"nontrivial": False, "labels": ["sign"]}
    m = lambda t: np.exp(np.array([-0.5j, 0.5j]) * np.pi * t)  # noqa: E731
    w = np.array([np.exp(-4 * np.sum(abs(m(b) - m(t)) ** 2)) for t in (0, 0.5, 1, 1.5)])
    w /= w.sum()
    for t, p in zip((0, 0.5, 1, 1.5), w):
        k = got.count(t)
        check(
            abs(k - n * p) < 7 * np.sqrt(n * p * (1 - p)) + 4,
            lambda: "%r was replaced by %r %d times in %d, the distances of the rotations give it probability %r" % (a, t, k, n, p),
        )
    return {"nontrivial": w.max() < 0.99, "labels": ["spread" if w.max() < 0.99 else "nearest"]}


angles_st = st.fixed_dictionaries({"angle": st.one_of(gen.angle, st.floats(-4, 4).map(lambda x: round(x, 3))), "seed": st.integers(0, 10**6)})

basis = dict(ones=["H"], twos=["CX"], rots=["Rz"])
state_st = st.fixed_dictionaries(
    {
        "circ": gen.circuit_st(1, 4, 16, 2, naming=gen.NAMES, big=(6, 90), **basis),
        "bars": st.lists(st.integers(0, 3), max_size=2),
        "more": st.lists(gen.gate(4, **basis), max_size=6),
        "meas": st.booleans(),
        # in some cases, many more rotations at the end
        "tail": st.integers(0, 11).flatmap(lambda k: st.lists(gen.angle, min_size=10, max_size=40) if k == 11 else st.just([])),
        "n_non": gen.size(0, 6, 25),
        "pairs": gen.size(0, 6, 25),
        "total": gen.size(1, 8, 40),
        "seed": st.integers(0, 10**6),
    }
)
cliff_st = st.fixed_dictionaries(
    {
        "circ": gen.circuit_st(1, 4, 12, 0, naming=gen.NAMES),
        "boxed": st.booleans(),
        "perm": st.booleans(),
        "n_non": st.integers(0, 4),
        "pairs": st.integers(0, 4),
        "total": st.integers(1, 5),
    }
)


# ---------------------------------------------------------------- noise models
def model_of(spec):
    """spec = [A, B, C] -> (exact -> noisy) with exact = A noisy^2 + B noisy + C"""
    A, B, C = spec

    def noisy(v):
        if abs(A) < 1e-9:
            return (v - C) / B
        return (-B + np.sqrt(B * B - 4 * A * (C - v))) / (2 * A)

    return noisy


def model_st(degree):
    a = st.sampled_from([0.0]) if degree == 1 else st.sampled_from([0.05, -0.04, 0.02, 0.0])
    return st.tuples(a, st.sampled_from([1.0, 1.25, 2.0, 1.1]), st.sampled_from([0.0, 0.1, -0.2, 0.05])).map(list)


def distinct(vals, sep):
    out = []
    for v in sorted(vals):
        if not out or v - out[-1] >= sep:
            out.append(v)
    return len(out)


def run_tasks(case):
    deg, total = case["degree"], case["total"]
    n = case["n"]
    qs = gen.qubits_of(n, case["names"])
    rng = np.random.default_rng(case["seed"])
    sim, dev, noisy, truth, comparable = [], [], [], [], []
    for j, exp in enumerate(case["exps"]):
        strs = [gen.qps(l, qs) for l, _ in exp["strings"]]
        mods = {s: model_of(mm[: 3]) for s, (_, mm) in zip(strs, exp["strings"])}
        train = {s: [float(v) for v in rng.uniform(-1, 1, total)] for s in strs}
        for k in range(total):
            sim.append(QubitPauliOperator({s: train[s][k] for s in strs}))
            dev.append(QubitPauliOperator({s: mods[s](train[s][k]) for s in strs}))
        t = {s: float(rng.uniform(-1, 1)) for s in strs}
        nz = {s: mods[s](t[s]) for s in strs}
        for l in exp["extra"]:  # strings which were not characterised are passed through
            s = gen.qps(l, qs)
            if s not in t:
                t[s] = nz[s] = float(rng.uniform(-1, 1))
        truth.append(t)
        noisy.append(QubitPauliOperator(nz))
        comparable.append(strs)
    (batched,) = ccl_result_batching_task_gen(total)(([QubitPauliOperator(dict(q._dict)) for q in sim], [QubitPauliOperator(dict(q._dict)) for q in dev]))
    check(len(batched) == len(case["exps"]), "%d batches for %d experiments" % (len(batched), len(case["exps"])))
    for j, b in enumerate(batched):
        check(len(b) == total, "batch of %d, %d training circuits" % (len(b), total))
        for k, (a, e) in enumerate(b):
            check(a == dev[j * total + k] and e == sim[j * total + k], "batch %d entry %d" % (j, k))
    # filtering with a likelihood function which is 0 or 1
    flags = [[(case["keepmask"] >> ((j * total + k) % 30)) & 1 for k in range(total)] for j in range(len(batched))]
    order = [f for row in flags for f in row]
    seen = []

    def likelihood(nqpo, eqpo):
        seen.append((nqpo, eqpo))
        return order[len(seen) - 1]

    flat = [p for b in batched for p in b]
    (filt,) = ccl_likelihood_filtering_task_gen(likelihood, **({"seed": 3} if case["seed"] % 2 else {}))(([list(b) for b in batched],))
    check(seen == flat, "the likelihood function is called with other arguments than (noisy, exact) of every training circuit")
    check(
        [[p for p, f in zip(b, row) if f] for b, row in zip(batched, flags)] == filt,
        "likelihood 0/1 does not reject/accept exactly",
    )
    (nofilt,) = ccl_likelihood_filtering_task_gen(LikelihoodFunction.none)((batched,))
    check(nofilt == batched, "LikelihoodFunction.none rejects results")
    # a likelihood of one half keeps a subsequence
    (half,) = ccl_likelihood_filtering_task_gen(lambda a, b: 0.5)((batched,))
    for b, h in zip(batched, half):
        it = iter(b)
        check(all(any(x[0] is y[0] and x[1] is y[1] for y in it) for x in h), "filtering invents or reorders results")
    use = filt if case["usefilter"] and all(len(f) >= deg + 2 for f in filt) else batched
    model = _PolyCDRCorrect(deg)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a, b = cdr_quality_check_task_gen(0.1, 0.5)((noisy, use))
        check(a is noisy or a == noisy, "quality check changes the results")
        check(b is use or b == use, "quality check changes the training data")
        cal, cor = cdr_calibration_task_gen(model), cdr_correction_task_gen()
        (ok,) = cal((use,))
        cor.characterisation = cal.characterisation
        (res,) = cor((ok, noisy))
    check(len(res) == len(noisy), "number of results")
    nt = False
    for j, r in enumerate(res):
        got = dict(r._dict)
        check(set(got) == set(noisy[j]._dict), "strings of result %d" % j)
        for s, v in truth[j].items():
            if s in comparable[j]:
                tr = [float(q[0]._dict[s]) for q in use[j]]
                if distinct(tr, 1e-2) < deg + 1:
                    continue
                nt |= abs(complex(noisy[j]._dict[s]) - v) > 1e-3
            check(abs(complex(got[s]) - v) < 1e-6, lambda: "experiment %d string %s: %r, exact %r" % (j, s, got[s], v))
    return {"nontrivial": nt, "labels": ["degree%d" % deg, "filtered" if use is filt else "all"]}


def tasks_st():
    return st.tuples(st.integers(1, 3), st.integers(1, 2)).flatmap(
        lambda t: st.fixed_dictionaries(
            {
                "n": st.just(t[0]),
                "names": st.sampled_from(gen.NAMES),
                "degree": st.just(t[1]),
                "total": st.integers(4, 9),
                "seed": st.integers(0, 10**6),
                "keepmask": st.integers(0, 2**30 - 1),
                "usefilter": st.booleans(),
                "exps": gen.some(
                    st.fixed_dictionaries(
                        {
                            "strings": st.lists(st.tuples(gen.letters_st(t[0]), model_st(t[1])), min_size=1, max_size=3, unique_by=lambda x: x[0]),
                            "extra": st.lists(gen.letters_st(t[0]), max_size=2),
                        }
                    ),
                    3,
                    empty=False,
                ),
            }
        )
    )


# ---------------------------------------------------------------- data which no polynomial fits exactly
def run_fit(case):
    """the model minimises the squares of its differences from all of the training data"""
    deg = case["degree"]
    pts = [(x / 20, y / 20) for x, y in case["data"]]
    xs = np.array([p[0] for p in pts])
    if len(set(xs)) < deg + 1:
        return {"nontrivial": False, "labels": ["degenerate"]}
    s = gen.qps("Z", gen.qubits_of(1, "q"))
    data = [(QubitPauliOperator({s: x}), QubitPauliOperator({s: y})) for x, y in pts]
    cal, cor = cdr_calibration_task_gen(_PolyCDRCorrect(deg)), cdr_correction_task_gen()
    (ok,) = cal(([list(data) for _ in pts],))
    cor.characterisation = cal.characterisation
    (res,) = cor((ok, [QubitPauliOperator({s: x}) for x in xs]))
    got = np.array([complex(r._dict[s]).real for r in res])
    diff = got - np.array([p[1] for p in pts])
    for k in range(deg + 1):
        check(
            abs(np.sum(diff * xs**k)) < 1e-7 * len(pts),
            lambda: "polynomial of degree %d for %r has the values %r, not the least squares (moment %d is %r)" % (deg, pts, list(got), k, np.sum(diff * xs**k)),
        )
    # the values are those of a polynomial of the degree
    v = np.vander(xs, deg + 1)
    co = np.linalg.lstsq(v, got, rcond=None)[0]
    check(np.max(abs(v @ co - got)) < 1e-7, "the corrections are not a polynomial of degree %d" % deg)
    return {"nontrivial": bool(np.max(abs(diff)) > 1e-3), "labels": ["twice"] if len(set(pts)) < len(pts) else []}


fit_st = st.fixed_dictionaries(
    {
        "degree": st.integers(1, 2),
        "data": st.lists(st.tuples(st.integers(-20, 20), st.integers(-20, 20)), min_size=3, max_size=12).flatmap(
            lambda l: st.lists(st.sampled_from(l), max_size=4).map(lambda m: l + m)
        ),
    }
)


# ---------------------------------------------------------------- the warning about unsuitable training data
def run_quality(case):
    tol, frac = case["tol"], case["frac"]
    s = gen.qps("Z", gen.qubits_of(1, "q")) if case["string"] else QubitPauliString()
    noisy = [QubitPauliOperator({s: v}) for v, _ in case["exps"]]
    cal = [[(QubitPauliOperator({s: v + d}), QubitPauliOperator({s: 0.3 * i})) for i, d in enumerate(ds)] for v, ds in case["exps"]]
    want, nt = 0, False
    for v, ds in case["exps"]:
        far = sum(abs(d) > tol for d in ds)
        want += far > frac * len(ds)
        nt |= 0 < far < len(ds)
    keep = [[(p, dict(p[0]._dict), dict(p[1]._dict)) for p in c] for c in cal]
    with warnings.catch_warnings(record=True) as got:
        warnings.simplefilter("always")
        a, b = cdr_quality_check_task_gen(tol, frac)((noisy, cal))
    got = [w for w in got if issubclass(w.category, UserWarning)]
    check(
        (len(got) > 0) == (want > 0),
        lambda: "%d warnings about training data with tolerance %r and fraction %r, %d experiments of %r are unsuitable" % (len(got), tol, frac, want, case["exps"]),
    )
    check([dict(q._dict) for q in a] == [{s: v} for v, _ in case["exps"]], "the quality check changes the results")
    check(len(b) == len(keep) and all(len(x) == len(y) and all(dict(p[0]._dict) == n and dict(p[1]._dict) == e for p, (_, n, e) in zip(x, y)) for x, y in zip(b, keep)), "the quality check changes the training data")
    return {"nontrivial": nt, "labels": ["warns" if want else "silent"]}


quality_st = st.fixed_dictionaries(
    {
        "tol": st.sampled_from([0.1, 0.25, 0.5, 0.05]),
        "frac": st.sampled_from([0.5, 0.25, 0.75, 0.1, 0.9, 0.0, 1.0]),
        "string": st.booleans(),
        "exps": st.lists(
            st.tuples(
                st.sampled_from([0.0, 0.5, -0.3, 1.0, -1.0]),
                st.lists(st.sampled_from([0.01, -0.02, 0.04, 0.2, -0.2, 0.3, -0.4, 0.7, -0.7]), min_size=1, max_size=9),
            ),
            min_size=1,
            max_size=3,
        ),
    }
)

# ---------------------------------------------------------------- end to end
class ExactSim(RecordingBackend):
    """simulator with exact expectation values, keeps the circuits it was asked about"""

    _supports_expectation = True
    _expectation_allows_nonhermitian = False

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.asked = []

    def get_operator_expectation_value(self, circ, op, **kw):
        self.asked.append(circ)
        return float(sum(complex(co).real * refsim.expectation(circ, s) for s, co in op._dict.items()))

    def get_pauli_expectation_value(self, circ, s, **kw):
        return refsim.expectation(circ, s)


def n_nonclifford(c):
    return sum(1 for cmd in c.get_commands() if cmd.op.type == OpType.Rz and not is_cliff(float(cmd.op.params[0])))


def check_training(pairs, exps_in, ops, nn, total):
    """pairs: the experiments given to the simulator / device"""
    for k, e in enumerate(pairs):
        j = k // total
        src = exps_in[j].AnsatzCircuit
        ac = e.AnsatzCircuit
        check(ac.Shots == src.Shots, "training circuit %d has %r shots, experiment %r" % (k, ac.Shots, src.Shots))
        check(e.ObservableTracker.qubit_pauli_operator == ops[j], "training circuit %d has another observable than its experiment" % k)
        check(not ac.Circuit.free_symbols(), "training circuit with free symbols")
        check(n_nonclifford(ac.Circuit) <= nn, "training circuit with %d > %d non-Clifford gates" % (n_nonclifford(ac.Circuit), nn))
        check(set(ac.Circuit.qubits) == set(src.Circuit.qubits), lambda: "training circuit over %r, experiment over %r" % (ac.Circuit.qubits, src.Circuit.qubits))


def run_e2e(case):
    deg, nn, total = case["degree"], case["n_non"], case["total"]
    built, ops, truth, before = [], [], [], []
    for i, e in enumerate(case["exps"]):
        oe, op, exact = exps.make(e, shots=case.get("base", 10) + i)
        if e["perm"] and e["circ"]["n"] > 1:
            c = oe.AnsatzCircuit.Circuit
            c.SWAP(c.qubits[0], c.qubits[1])
            c.replace_SWAPs()
        built.append(oe)
        ops.append(QubitPauliOperator(dict(op._dict)))
        truth.append(exact_values(oe))
        before.append(oe.AnsatzCircuit.Circuit.to_dict())
    mods = {}

    def noisy_of(j, s):
        if (j, s) not in mods:
            specs = case["models"]
            mods[(j, s)] = model_of(specs[(j * 3 + sum(p.value for p in s.map.values()) + len(mods)) % len(specs)])
        return mods[(j, s)]

    log = {"sim": [], "dev": [], "exp": []}

    def f_sim(k, e):
        log["sim"].append(e)
        return exact_values(e)

    def f_dev(k, e):
        log["dev"].append(e)
        return {s: noisy_of(k // total, s)(v) for s, v in exact_values(e).items()}

    def f_exp(k, e):
        log["exp"].append(e)
        return {s: noisy_of(k, s)(v) for s, v in exact_values(e).items()}

    mit = gen_CDR_MitEx(
        RecordingBackend(),
        ExactSim(),
        nn,
        min(case["pairs"], nn),
        total,
        states_simulator_mitex=fake_mitex(f_sim, "S"),
        states_device_mitex=fake_mitex(f_dev, "D"),
        experiment_mitex=fake_mitex(f_exp, "E"),
        model=_PolyCDRCorrect(deg),
        tolerance=0.01,
        max_state_circuits_attempts=case["attempts"],
    )
    nt = False
    labels = ["degree%d" % deg]
    for rep in range(case["runs"]):
        for v in log.values():
            v.clear()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            res = mit.run(built)
        check(len(log["sim"]) == len(log["dev"]) == total * len(built), "number of training experiments")
        check(len(log["exp"]) == len(built), "number of experiments run")
        check_training(log["sim"], built, ops, nn, total)
        check_training(log["dev"], built, ops, nn, total)
        for a, b in zip(log["sim"], log["dev"]):
            check(a.AnsatzCircuit.Circuit == b.AnsatzCircuit.Circuit, "simulator and device run different training circuits")
        check(len(res) == len(built), "number of results")
        for j, r in enumerate(res):
            check(built[j].AnsatzCircuit.Circuit.to_dict() == before[j], "the experiment's circuit was changed")
            got = dict(r._dict)
            check(set(got) == set(truth[j]), "strings of result %d" % j)
            for s, v in truth[j].items():
                tr = [noisy_of(j, s)(exact_values(e)[s]) for e in log["dev"][j * total : (j + 1) * total]]
                if distinct(tr, 1e-2) < deg + 1:
                    labels.append("degenerate")
                    continue
                check(abs(complex(got[s]) - v) < 1e-5, lambda: "run %d experiment %d <%s> = %r, exact %r (noisy %r)" % (rep, j, s, got[s], v, noisy_of(j, s)(v)))
                if abs(noisy_of(j, s)(v) - v) > 1e-3:
                    nt = True
                    labels.append("corrected")
    return {"nontrivial": nt, "labels": sorted(set(labels))}


def e2e_exp():
    return st.tuples(exps.experiment_st(3, 10, min_weight=1, max_terms=3, ones=["H", "V", "X"], twos=["CX", "CZ"], rots=["Rx", "Ry", "Rz"], tworots=["ZZPhase"]), st.booleans()).map(
        lambda t: {**t[0], "perm": t[1]}
    )


e2e_st = st.integers(1, 2).flatmap(
    lambda deg: st.fixed_dictionaries(
        {
            "degree": st.just(deg),
            "n_non": st.integers(0, 4),
            "pairs": st.integers(0, 4),
            "total": st.integers(deg + 1, 7),
            "attempts": st.integers(1, 4),
            "base": st.sampled_from([10, 10, 123457, 10**7]),
            "runs": st.sampled_from([1, 1, 2]),
            "models": st.lists(model_st(deg), min_size=2, max_size=4),
            "exps": gen.some(e2e_exp(), 3),
        }
    )
)


def run_default(case):
    """no MitEx given: a device with global depolarising noise, corrected by a linear model"""
    p = case["p"]

    def hook(circ, d):
        w = len(circ.bits)
        if not w:
            return d
        out = {k: (1 - p) * v for k, v in d.items()}
        for i in range(2**w):
            k = tuple((i >> b) & 1 for b in range(w))
            out[k] = out.get(k, 0) + p / 2**w
        return out

    dev = RecordingBackend(dist_hook=hook, compile_kind=case["compile"], strict=True)
    sim = ExactSim(strict=True)
    oe, op, _ = exps.make(case["exp"], shots=10**9)
    if case["perm"] and case["exp"]["circ"]["n"] > 1:
        c = oe.AnsatzCircuit.Circuit
        c.SWAP(c.qubits[0], c.qubits[1])
        c.replace_SWAPs()
    truth = exact_values(oe)
    total = case["total"]
    mit = gen_CDR_MitEx(dev, sim, case["n_non"], min(case["pairs"], case["n_non"]), total, max_state_circuits_attempts=1)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        (res,) = mit.run([oe])
    check(len(sim.asked) == total, "%d training circuits simulated for their spread, %d requested" % (len(sim.asked), total))
    check(len(dev.jobs) > 0 and len(sim.jobs) > 0, "nothing was run on the device or the simulator")
    got = dict(res._dict)
    check(set(got) == set(truth), "strings of the result")
    nt = False
    for s, v in truth.items():
        tr = [refsim.expectation(c, s) * float(op._dict[s]) for c in sim.asked]
        if distinct(tr, 5e-2) < 2 or p > 0.9:
            continue
        check(abs(complex(got[s]) - v) < 2e-4 / (1 - p), lambda: "<%s> = %r, exact %r, noise %r" % (s, got[s], v, p))
        nt |= p > 0 and abs(v) > 1e-2
    return {"nontrivial": nt, "labels": [case["compile"]]}


default_st = st.fixed_dictionaries(
    {
        "exp": exps.experiment_st(3, 8, min_weight=1, max_terms=3, ones=["H", "V"], twos=["CX"], rots=["Rx", "Ry", "Rz"]),
        "perm": st.booleans(),
        "p": st.sampled_from([0.0, 0.1, 0.3, 0.5]),
        "compile": st.sampled_from(["plain", "flatten", "routed"]),
        "n_non": st.integers(0, 4),
        "pairs": st.integers(0, 3),
        "total": st.integers(2, 6),
    }
)

PARTS = [
    Part("state", state_st, run_state, quick=800, thorough=20000),
    Part("clifford", cliff_st, run_clifford, quick=300, thorough=5000),
    Part("fit", fit_st, run_fit, quick=300, thorough=10000),
    Part("angles", angles_st, run_angles, quick=120, thorough=10000),
    Part("tasks", tasks_st(), run_tasks, quick=600, thorough=20000),
    Part("quality", quality_st, run_quality, quick=400, thorough=10000),
    Part("e2e", e2e_st, run_e2e, quick=300, thorough=6000),
    Part("default", default_st, run_default, quick=160, thorough=3000),
]
