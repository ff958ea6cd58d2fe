"""Learning-based probabilistic error cancellation."""

from collections import Counter

import numpy as np
from checks import exps
from checks.exps import exact_values, fake_mitex
from hypothesis import strategies as st
from lib import gen, refsim
from lib.backends import GATESET, RecordingBackend
from lib.pbt import Part, check
from pytket import Circuit, OpType
from pytket.architecture import FullyConnected
from pytket.backends.backendinfo import BackendInfo
from pytket.circuit import Qubit
from pytket.pauli import Pauli
from pytket.utils import QubitPauliOperator
from qermit import AnsatzCircuit, ObservableExperiment, ObservableTracker, SymbolsDict
from qermit.probabilistic_error_cancellation import gen_PEC_learning_based_MitEx
from qermit.probabilistic_error_cancellation.pec_learning_based import (
    collate_results_task_gen,
    gen_get_clifford_training_set,
    gen_get_noisy_circuits,
    gen_label_gates,
    gen_rebase_to_frames_and_computing,
    gen_run_with_quasi_prob,
    gen_wrap_frame_gates,
    learn_quasi_probs_task_gen,
    random_commuting_clifford,
)

PROPERTY = "C24"
RULE = (
    "A case is a list of experiments whose circuits are taken through rebasing, labelling, wrapping and error insertion, or through the choice of training circuits "
    "(compared with the original by unitary and by exhaustively inserted errors), arbitrary results put through collating, learning and mitigation (compared with a direct "
    "least-squares computation), or experiments sent through the whole mitigation on a device which damps every string. Non-trivial: a circuit with a two-qubit gate and "
    "another gate; a training circuit; at least two variants per circuit; a mitigated value which the training circuits determine and which differs from the noisy one."
)
TECHNIQUE = "property-based testing (Hypothesis): exhaustive error insertion in a reference simulator, differential least squares, exact recovery from planted damping"

PMAT = {"I": np.eye(2), "X": np.array([[0, 1], [1, 0]]), "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1, -1])}
_GATE = {"X": OpType.X, "Y": OpType.Y, "Z": OpType.Z}


class ExactSim(RecordingBackend):
    _supports_state = True
    _supports_expectation = True

    def get_pauli_expectation_value(self, circ, s, **kw):
        return refsim.expectation(circ, s)


def info():
    return BackendInfo("device", "device", "1", FullyConnected(6), GATESET)


def circ_st(max_n=3, max_gates=8, big=None):
    return gen.circuit_st(1, max_n, max_gates, 0, big=big, naming=gen.NAMES, **gen.UNIVERSAL).flatmap(
        lambda c: st.fixed_dictionaries(
            {
                "circ": st.just(c),
                "swap": st.booleans(),
                "terms": gen.operator_st(c["n"], 1, 3, 0),
                "keep_i": st.booleans(),
                "syms": st.lists(st.integers(0, 5), max_size=2),
            }
        )
    )


def make(case, shots):
    c, sd, op, exact = exps.build_exp(case, shots, "mine")
    if case["swap"] and len(c.qubits) > 1:
        c.SWAP(c.qubits[0], c.qubits[1])
        c.replace_SWAPs()
    return ObservableExperiment(AnsatzCircuit(c, shots, sd), ObservableTracker(op))


def snapshot(e):
    return (
        e.AnsatzCircuit.Circuit.to_dict(),
        e.AnsatzCircuit.Shots,
        dict(e.AnsatzCircuit.SymbolsDict._symbolic_map),
        dict(e.ObservableTracker.qubit_pauli_operator._dict),
        len(e.ObservableTracker.measurement_circuits),
    )


def valued(e):
    c = e.AnsatzCircuit.Circuit.copy()
    c.symbol_substitution(e.AnsatzCircuit.SymbolsDict._symbolic_map)
    return c


def fingerprint(u):
    """a unitary up to its phase"""
    k = np.argmax(np.abs(np.round(u.ravel(), 5)))
    v = u.ravel()[k]
    return tuple(np.round(u * (abs(v) / v) + (1e-9 + 1e-9j), 4).ravel().tolist())


def frames(c):
    """positions of the two-qubit gates, labelled by their places on their qubits"""
    seen = Counter()
    out = []
    for i, cmd in enumerate(c.get_commands()):
        if len(cmd.qubits) == 2:
            out.append((tuple((q, seen[q]) for q in cmd.qubits), i))
            for q in cmd.qubits:
                seen[q] += 1
    return out


def with_error(c, at, p):
    """c with the Paulis p before and after its command number `at`"""
    out = Circuit()
    for q in c.qubits:
        out.add_qubit(q)
    for i, cmd in enumerate(c.get_commands()):
        ins = [(_GATE[x], q) for x, q in zip(p, cmd.qubits) if x != "I"] if i == at else []
        for g, q in ins:
            out.add_gate(g, [q])
        out.add_gate(cmd.op, list(cmd.args))
        for g, q in ins:
            out.add_gate(g, [q])
    perm = c.implicit_qubit_permutation()
    if any(a != b for a, b in perm.items()):
        d = out.to_dict()
        d["implicit_permutation"] = c.to_dict()["implicit_permutation"]
        out = Circuit.from_dict(d)
    return out


PAIRS = [a + b for a in "IXYZ" for b in "IXYZ" if a + b != "II"]


def variants(c):
    """c and c with every error at every two-qubit gate, keyed"""
    yield ("none", c)
    for lab, at in sorted(frames(c), key=repr):
        for p in PAIRS:
            yield ((lab, p), with_error(c, at, p))


# ---------------------------------------------------------------- circuits with errors
def run_frames(case):
    es = [make(e, case.get("base", 10) + i) for i, e in enumerate(case["exps"])]
    before = [snapshot(e) for e in es]
    (reb,) = gen_rebase_to_frames_and_computing()((list(es),))
    (lab,) = gen_label_gates()((list(reb),))
    (wrp,) = gen_wrap_frame_gates()((list(lab),))
    check([snapshot(e) for e in es] == before, "the experiments given were changed")
    for name, out in (("rebasing", reb), ("labelling", lab), ("wrapping", wrp)):
        check(len(out) == len(es), "%s: %d experiments for %d" % (name, len(out), len(es)))
        for a, b in zip(es, out):
            sa, sb = snapshot(a), snapshot(b)
            check(sa[1:4] == sb[1:4], "%s changed shots, symbols or operator" % name)
            check(b.AnsatzCircuit.Circuit.qubits == a.AnsatzCircuit.Circuit.qubits, "%s changed the qubits" % name)
            check(refsim.equal_up_to_phase(refsim.unitary(valued(a)), refsim.unitary(valued(b))), lambda: "%s changed the unitary of %r" % (name, a.AnsatzCircuit.Circuit.get_commands()))
    nt = False
    ok = []
    for e in lab:
        cmds = e.AnsatzCircuit.Circuit.get_commands()
        groups = [x.opgroup for x in cmds]
        check(None not in groups and len(set(groups)) == len(groups), "gates are not labelled one by one: %r" % groups)
        last = {}
        for x in cmds:
            check(("Computing" in x.opgroup) == (len(x.qubits) == 1) and ("Frame" in x.opgroup) == (len(x.qubits) == 2), "%r labelled %r" % (x, x.opgroup))
            check(len(x.qubits) == 1 or x.op.type == OpType.CX, "two-qubit gate %r is not Clifford" % (x,))
            for q in x.qubits:
                # pytket leaves neighbours of gates with symbols apart
                symbolic = e.AnsatzCircuit.Circuit.is_symbolic()
                check(symbolic or len(x.qubits) == 2 or last.get(q) != 1, "single-qubit gates are not merged: %r" % cmds)
                last[q] = len(x.qubits)
        ok.append(any(len(x.qubits) == 2 for x in cmds))
        nt |= ok[-1] and any(len(x.qubits) == 1 for x in cmds)
    task = gen_get_noisy_circuits(RecordingBackend(compile_kind="none"))
    if not all(ok):
        try:
            task((list(wrp),))
        except RuntimeError:
            return {"nontrivial": False, "labels": ["no frames"]}
        check(False, "circuits without two-qubit gates are accepted")
    noisy, structure = task((list(wrp),))
    check([snapshot(e)[1:4] for e in wrp] == [b[1:4] for b in before], "inserting errors changed the experiments")
    check(len(noisy) == len(structure), "structure of %d circuits for %d" % (len(structure), len(noisy)))
    pos = 0
    for j, (e, w) in enumerate(zip(es, lab)):
        c = valued(w)
        want = [(k, refsim.unitary(v)) for k, v in variants(c)]
        mine = noisy[pos : pos + len(want)]
        check(
            [dict(s) for s in structure[pos : pos + len(want)]] == [{"experiment": j, "error": k} for k in range(len(want))],
            "structure of the circuits with errors of experiment %d: %r" % (j, structure[pos : pos + len(want)]),
        )
        pos += len(want)
        got = []
        for x in mine:
            check(snapshot(x)[1:4] == before[j][1:4], "shots, symbols or operator of a circuit with errors")
            got.append(refsim.unitary(valued(x)))
        check(refsim.equal_up_to_phase(got[0], want[0][1]), "the first circuit is not the one without errors")
        a, b = Counter(map(fingerprint, got)), Counter(fingerprint(u) for _, u in want)
        if a != b:
            # rounding at the edge of the grid: match one by one
            rest = list(got)
            for k, u in want:
                m = [i for i, v in enumerate(rest) if refsim.equal_up_to_phase(u, v, 1e-6)]
                check(bool(m), lambda: "no circuit has the error %r of %r" % (k, c.get_commands()))
                rest.pop(m[0])
    check(pos == len(noisy), "%d circuits with errors, %d possible" % (len(noisy), pos))
    return {"nontrivial": nt, "labels": ["frames%d" % min(3, len(frames(c)))]}


frames_st = st.fixed_dictionaries({"base": st.sampled_from([10, 10, 123457]), "exps": st.lists(circ_st(3, 6, big=(3, 20)), min_size=1, max_size=2)})


# ---------------------------------------------------------------- training circuits
def reachable(c, string):
    """can Clifford gates in place of the single-qubit gates make the expectation of the string non-zero?"""
    inv = {v: k for k, v in c.implicit_qubit_permutation().items()}
    start = {q: "I" for q in c.qubits}
    for q, p in string.map.items():
        start[inv[q]] = "IXYZ"[p.value]
    cur = {tuple(start[q] for q in c.qubits)}
    idx = {q: i for i, q in enumerate(c.qubits)}
    xz = {"I": (0, 0), "X": (1, 0), "Y": (1, 1), "Z": (0, 1)}
    zx = {v: k for k, v in xz.items()}
    for cmd in reversed(c.get_commands()):
        new = set()
        for s in cur:
            if len(cmd.qubits) == 1:
                i = idx[cmd.qubits[0]]
                for x in "XYZ" if s[i] != "I" else "I":
                    new.add(s[:i] + (x,) + s[i + 1 :])
            else:
                a, b = (idx[q] for q in cmd.qubits)
                (xa, za), (xb, zb) = xz[s[a]], xz[s[b]]
                t = list(s)
                t[a], t[b] = zx[(xa, za ^ zb)], zx[(xb ^ xa, zb)]
                new.add(tuple(t))
        cur = new
    return any(all(x in "IZ" for x in s) for s in cur)


def same_frames(a, b):
    """the same two-qubit gates at the same places, and per qubit one gate where the other has some"""
    return [k for k, _ in sorted(frames(a), key=repr)] == [k for k, _ in sorted(frames(b), key=repr)]


def segments(c):
    """per qubit: for each stretch between two-qubit gates, whether it contains gates other than Paulis' placeholders"""
    out = {q: [False] for q in c.qubits}
    for cmd in c.get_commands():
        if len(cmd.qubits) == 2:
            for q in cmd.qubits:
                out[q].append(False)
        elif cmd.op.type != OpType.noop:
            out[cmd.qubits[0]][-1] = True
    return out


def is_clifford_unitary(c):
    """1-qubit gates of c, as unitaries, are Clifford"""
    for cmd in c.get_commands():
        if len(cmd.qubits) == 1:
            d = Circuit(1)
            d.add_gate(cmd.op, [0])
            u = refsim.unitary(d)
            for p in "XZ":
                m = u @ PMAT[p] @ u.conj().T
                if not any(np.allclose(m, s * PMAT[q], atol=1e-7) for q in "XYZ" for s in (1, -1)):
                    return False
    return True


def check_training_circuit(t, base, string):
    check(t.qubits == base.qubits, "training circuit over %r, original over %r" % (t.qubits, base.qubits))
    check(same_frames(t, base), lambda: "training circuit with other two-qubit gates: %r became %r" % (base.get_commands(), t.get_commands()))
    check(all(x.op.type == OpType.CX for x in t.get_commands() if len(x.qubits) == 2), "two-qubit gates of the training circuit")
    check(is_clifford_unitary(t), "training circuit is not Clifford: %r" % t.get_commands())
    sb, stt = segments(base), segments(t)
    check(all(b or not a for q in sb for a, b in zip(stt[q], sb[q])), lambda: "training circuit %r has gates where the original %r has none" % (t.get_commands(), base.get_commands()))
    check(
        t.implicit_qubit_permutation() == base.implicit_qubit_permutation(),
        "implicit permutation of the training circuit",
    )
    v = refsim.expectation(t, string)
    check(abs(abs(v) - 1) < 1e-7, lambda: "expectation of %s on the training circuit %r is %r" % (string, t.get_commands(), v))


def run_training(case):
    es = [make(e, case.get("base", 10) + i) for i, e in enumerate(case["exps"])]
    (reb,) = gen_rebase_to_frames_and_computing()((list(es),))
    (lab,) = gen_label_gates()((reb,))
    if case["wrap"]:
        (lab,) = gen_wrap_frame_gates()((lab,))
    before = [snapshot(e) for e in lab]
    num = case["num"]
    comp = [sum(len(x.qubits) == 1 for x in r.AnsatzCircuit.Circuit.get_commands()) for r in reb]
    can = [[reachable(r.AnsatzCircuit.Circuit, s) for s in r.ObservableTracker.qubit_pauli_operator._dict] for r in reb]
    sim = ExactSim()
    try:
        out, structure = gen_get_clifford_training_set(sim, num)((list(lab),))
    except ValueError:
        check(0 in comp, "training refused although every circuit has single-qubit gates")
        return {"nontrivial": False, "labels": ["no computing gates"]}
    except RuntimeError:
        check(not all(map(all, can)) or max(comp) > 5, lambda: "no training circuit is found for %r" % [e.AnsatzCircuit.Circuit.get_commands() for e in es])
        return {"nontrivial": False, "labels": ["impossible"]}
    check(0 not in comp, "circuits without single-qubit gates are accepted")
    check(all(map(all, can)), "training circuits for strings whose expectation always vanishes")
    check([snapshot(e) for e in lab] == before, "choosing training circuits changed the experiments")
    check(len(out) == len(structure) == num * sum(map(len, can)), "%d training circuits" % len(out))
    k = 0
    diff = set()
    for j, (e, r) in enumerate(zip(lab, reb)):
        for i, s in enumerate(e.ObservableTracker.qubit_pauli_operator._dict):
            for _ in range(num):
                x, d = out[k], structure[k]
                k += 1
                check(d["experiment"] == j and d["qps"] == i, "training circuit %d described as %r" % (k - 1, d))
                check(x.AnsatzCircuit.Shots == e.AnsatzCircuit.Shots, "shots of a training circuit")
                check(dict(x.ObservableTracker.qubit_pauli_operator._dict) == {s: 1}, "operator of a training circuit")
                check_training_circuit(x.AnsatzCircuit.Circuit, r.AnsatzCircuit.Circuit, s)
                diff.add(repr(x.AnsatzCircuit.Circuit.get_commands()))
    return {"nontrivial": len(diff) > 1, "labels": ["wrap%d" % case["wrap"]]}


training_st = st.fixed_dictionaries({"base": st.sampled_from([10, 10, 123457]), "exps": st.lists(circ_st(3, 6), min_size=1, max_size=2), "num": st.integers(1, 4), "wrap": st.booleans()})


def run_attempts(case):
    """a bound on the attempts"""
    e = make(case["exp"], case.get("base", 10))
    (reb,) = gen_rebase_to_frames_and_computing()(([e],))
    ((lab,),) = gen_label_gates()((reb,))
    c = lab.AnsatzCircuit.Circuit
    s = next(iter(e.ObservableTracker.qubit_pauli_operator._dict))
    if not any(len(x.qubits) == 1 for x in c.get_commands()):
        return {"nontrivial": False, "labels": ["no computing gates"]}
    tries = []

    class Sim(ExactSim):
        def get_pauli_expectation_value(self, circ, q, **kw):
            tries.append(refsim.expectation(circ, q))
            return tries[-1]

    try:
        t = random_commuting_clifford(c, s, Sim(), max_count=case["max"])
    except RuntimeError:
        check(all(abs(v) < 0.5 for v in tries), "a training circuit with non-zero expectation was found but refused: %r" % tries)
        check(len(tries) == case["max"], "%d attempts, %d allowed" % (len(tries), case["max"]))
        return {"nontrivial": True, "labels": ["refused"]}
    check(len(tries) <= case["max"], "%d attempts, %d allowed" % (len(tries), case["max"]))
    check_training_circuit(t, reb[0].AnsatzCircuit.Circuit, s)
    return {"nontrivial": True, "labels": ["found"]}


attempts_st = st.fixed_dictionaries({"base": st.sampled_from([10, 10, 123457]), "exp": circ_st(2, 5), "max": st.integers(1, 3)})


@st.composite
def long_circuit(draw):
    """a circuit with 11 to 14 two-qubit gates, which no rebasing removes"""
    e = dict(draw(circ_st(3, 1)))
    c = dict(e["circ"], n=2 + draw(st.booleans()))
    e["terms"] = draw(gen.operator_st(c["n"], 1, 2, 0))
    c["gates"] = []
    for k in range(draw(st.integers(11, 14))):
        a = draw(st.integers(0, c["n"] - 1))
        b = (a + draw(st.integers(1, c["n"] - 1))) % c["n"]
        c["gates"] += [["Ry", [a], [draw(st.integers(1, 9)) / 13]], ["Rx", [b], [draw(st.integers(1, 9)) / 17]], ["CX", [a, b], []]]
    return dict(e, circ=c)


many_st = st.fixed_dictionaries({"base": st.sampled_from([10, 123457]), "exps": long_circuit().map(lambda e: [e])})

# ---------------------------------------------------------------- learning and mitigating
dyadic = st.integers(-8, 8).map(lambda k: k / 8)


def run_algebra(case):
    rs = np.random.RandomState(case["seed"])
    qs = [Qubit(0), Qubit(1)]
    num = case["num"]
    noisy, n_struct, ideal, i_struct = [], [], [], []
    data = []  # experiment -> string -> circuit -> (noisy list, ideal)
    jobs = []
    for j, e in enumerate(case["exps"]):
        per = []
        for i, letters in enumerate(e["letters"]):
            s = gen.qps(letters, qs)
            rows = []
            for t in range(num):
                y = float(rs.choice([-1, 1]))
                x = [float(v) for v in rs.randint(-8, 9, e["errors"]) / 8.0]
                rows.append((x, y))
                jobs.append((j, i, t, s, x, y))
            per.append(rows)
        data.append(per)
    if case["shuffle"]:
        # experiments one after another, training circuits of different strings interleaved
        jobs.sort(key=lambda b: (b[2], b[0], b[1]))
    for k, (j, i, t, s, x, y) in enumerate(jobs):
        ideal.append(QubitPauliOperator({s: y}))
        i_struct.append({"experiment": j, "qps": i, "training_circuit": t, "training circuit": t})
        for r, v in enumerate(x):
            noisy.append(QubitPauliOperator({s: v}))
            n_struct.append({"experiment": k, "error": r})
    (col,) = collate_results_task_gen()((noisy, n_struct, ideal, i_struct))
    check(len(col) == len(data), "collated %d experiments, given %d" % (len(col), len(data)))
    for a, b in zip(col, data):
        check(len(a) == len(b), "collated strings")
        for p, q in zip(a, b):
            got = [([float(complex(list(u._dict.values())[0]).real) for u, _ in c], {float(complex(list(v._dict.values())[0]).real) for _, v in c}) for c in p]
            check(got == [(x, {y}) for x, y in q], lambda: "collated results %r are not those of the training circuits %r" % (got, q))
    (probs,) = learn_quasi_probs_task_gen(num)((col,))
    check(len(probs) == len(data) and all(len(a) == len(b) for a, b in zip(probs, data)), "quasi-probabilities per experiment and string")
    nt = False
    for a, b in zip(probs, data):
        for q, rows in zip(a, b):
            m, y = np.array([r[0] for r in rows]), np.array([r[1] for r in rows])
            check(len(q) == m.shape[1], "%d quasi-probabilities for %d errors" % (len(q), m.shape[1]))
            best = np.linalg.lstsq(m, y, rcond=None)[0]
            sv = np.linalg.svd(m, compute_uv=False)
            sv = sv[sv > 1e-9]
            res, opt = np.linalg.norm(m @ np.array(q) - y), np.linalg.norm(m @ best - y)
            if len(sv) and sv[-1] / sv[0] < 1e-3:
                continue
            check(res < opt + 1e-5, lambda: "quasi-probabilities %r leave a deviation of %r from the ideal training results, %r is possible" % (q, res, opt))
            nt |= m.shape[1] > 1 and opt < np.linalg.norm(y) - 1e-3
    # mitigate with given quasi-probabilities
    given, results, struct, want = [], [], [], []
    for j, e in enumerate(case["exps"]):
        ss = [gen.qps(l, qs) for l in e["letters"]]
        q = rs.randint(-16, 17, (len(ss), e["errors"])) / 8.0
        v = rs.randint(-8, 9, (e["errors"], len(ss))) / 8.0
        given.append([list(map(float, r)) for r in q])
        for r in range(e["errors"]):
            results.append(QubitPauliOperator({s: float(v[r, i]) for i, s in enumerate(ss)}))
            struct.append({"experiment": j, "error": r})
        want.append({s: float(q[i] @ v[:, i]) for i, s in enumerate(ss)})
    (out,) = gen_run_with_quasi_prob()((given, results, struct))
    check(len(out) == len(want), "number of mitigated results")
    for a, b in zip(out, want):
        check(set(a._dict) == set(b), "strings of mitigated results")
        for s in b:
            check(abs(complex(a._dict[s]) - b[s]) < 1e-9, "mitigated <%s> = %r, combination of the noisy results %r" % (s, a._dict[s], b[s]))
    return {"nontrivial": nt, "labels": ["shuffled"] if case["shuffle"] else []}


algebra_st = st.fixed_dictionaries(
    {
        "exps": gen.some(
            st.fixed_dictionaries({"letters": st.lists(gen.letters_st(2), min_size=1, max_size=3, unique=True), "errors": st.sampled_from([1, 2, 5, 16, 31])}),
            3,
            st.fixed_dictionaries({"letters": st.lists(gen.letters_st(2), min_size=1, max_size=3, unique=True), "errors": st.sampled_from([1, 2, 5])}),
            empty=False,
        ),
        "num": gen.size(1, 8, 15),
        "shuffle": st.booleans(),
        "seed": st.integers(0, 2**32 - 1),
    }
)


# ---------------------------------------------------------------- whole mitigation
def run_e2e(case):
    es = []
    for i, e in enumerate(case["exps"]):
        d = e["circ"]
        c = gen.build({"n": d["n"], "names": d["names"], "gates": []})
        qs = gen.qubits_of(d["n"], d["names"])
        for q in qs if case["compile"] == "flatten" else []:
            # compilation drops idle qubits, which strings may not name
            c.H(q)
            c.Rz(0.31, q)
        for g in d["gates"]:
            gen.add(c, g, qs)
        ss = {gen.qps(l, qs): co for l, co in e["terms"]}
        es.append(ObservableExperiment(AnsatzCircuit(c, case.get("base", 10) + i, SymbolsDict()), ObservableTracker(QubitPauliOperator(ss))))
    before = [snapshot(e) for e in es]
    truth = [exact_values(e) for e in es]
    lam = lambda e, s: case["lams"][(e.AnsatzCircuit.Shots + sum(p.value for p in s.map.values())) % len(case["lams"])]  # noqa: E731
    sizes = [(len(frames(e.AnsatzCircuit.Circuit)), any(len(x.qubits) == 1 for x in e.AnsatzCircuit.Circuit.get_commands())) for e in es]
    logs = []

    def fresh():
        log = {"sim": [], "dev": []}
        logs.append(log)

        def f_sim(k, e):
            log["sim"].append(e)
            return exact_values(e)

        def f_dev(k, e):
            log["dev"].append(e)
            return {s: lam(e, s) * v for s, v in exact_values(e).items()}

        dev = RecordingBackend(backend_info=info(), compile_kind=case["compile"])
        return gen_PEC_learning_based_MitEx(
            dev, ExactSim(), simulator_mitex=fake_mitex(f_sim, "S"), device_mitex=fake_mitex(f_dev, "D"), num_cliff=case["num"], seed=case["seed"], optimisation_level=case["level"]
        )

    refused = False
    try:
        mit = fresh()
        res = mit.run(list(es))
    except (RuntimeError, ValueError) as ex:
        refused = True
        why = str(ex)
    if refused:
        hard = not all(f and c for f, c in sizes) or any(
            not reachable(e.AnsatzCircuit.Circuit, s) for e in es for s in e.ObservableTracker.qubit_pauli_operator._dict
        )
        # compilation may remove gates and so lead to a refusal
        check(hard or "no Gates of the Frame" in why or "no computing gates" in why or "non-zero expectation" in why, "refused: %s" % why)
        return {"nontrivial": False, "labels": ["refused"]}
    check([snapshot(e) for e in es] == before, "the experiments were changed")
    check(len(res) == len(es), "%d results for %d experiments" % (len(res), len(es)))
    sim = logs[0]["sim"]
    check(len(sim) == case["num"] * sum(map(len, truth)), "%d training circuits are simulated, %d requested" % (len(sim), case["num"] * sum(map(len, truth))))
    labels = []
    nt = False
    for j, (r, t) in enumerate(zip(res, truth)):
        check(set(r._dict) == set(t), "strings of result %d: %r, requested %r" % (j, set(r._dict), set(t)))
        c = es[j].AnsatzCircuit.Circuit
        train = [e for e in sim if e.AnsatzCircuit.Shots == case.get("base", 10) + j]
        per = len(train) // len(t)
        for i, (s, v) in enumerate(t.items()):
            rows = train[i * per : (i + 1) * per]
            ts = [next(iter(e.ObservableTracker.qubit_pauli_operator._dict)) for e in rows]
            circs = [e.AnsatzCircuit.Circuit for e in rows]
            ren = dict(zip(circs[0].qubits, c.qubits))
            if len(ren) != len(c.qubits) or any(
                {q: s.map.get(q, Pauli.I) for q in c.qubits} != {q2: z.map.get(q1, Pauli.I) for q1, q2 in ren.items()} for z in ts
            ):
                labels.append("renamed")
                continue
            key = lambda d, m: sorted((tuple((m[q], k) for q, k in lab), at) for lab, at in frames(d))  # noqa: E731
            ident = {q: q for q in c.qubits}
            skel = [k for k, _ in key(c, ident)]
            if any([k for k, _ in key(d, dict(zip(d.qubits, c.qubits)))] != skel for d in circs):
                labels.append("other frames")
                continue

            def vec(d, m, z):
                out = [refsim.expectation(d, z)]
                for _, at in key(d, m):
                    out += [refsim.expectation(with_error(d, at, p), z) for p in PAIRS]
                return np.array(out)

            T = np.array([vec(d, dict(zip(d.qubits, c.qubits)), z) for d, z in zip(circs, ts)])
            rv = vec(c, ident, s)
            w = np.linalg.lstsq(T.T, rv, rcond=1e-8)[0]
            if np.linalg.norm(T.T @ w - rv) > 1e-7:
                labels.append("undetermined")
                continue
            labels.append("determined")
            x = lam(es[j], s)
            nt |= abs(v) > 1e-3 and abs(x - 1) > 1e-3
            check(
                abs(complex(r._dict[s]) - v) < 1e-5,
                lambda: "experiment %d <%s> = %r, exact %r, on a device which damps by %r (%r)" % (j, s, r._dict[s], v, x, c.get_commands()),
            )
    if case["again"]:
        fresh().run(list(es))
        same = lambda k: [repr(e.AnsatzCircuit.Circuit.get_commands()) for e in logs[k]["sim"]]  # noqa: E731
        check(same(0) == same(1), "the same seed leads to other training circuits")
    return {"nontrivial": nt, "labels": sorted(set(labels))}


def small(n):
    one = st.tuples(st.sampled_from(["H", "T", "V", "X"]), st.integers(0, n - 1).map(lambda i: [i]), st.just([]))
    rot = st.tuples(st.sampled_from(["Rx", "Rz"]), st.integers(0, n - 1).map(lambda i: [i]), gen.angle.map(lambda a: [a]))
    cx = st.permutations(range(n)).map(lambda p: ("CX", list(p[:2]), []))
    # per block: some single-qubit gates, then a CX
    return st.tuples(st.lists(st.one_of(one, rot), min_size=1, max_size=2), cx, st.lists(st.one_of(one, rot), max_size=2), st.none() | cx, st.lists(st.one_of(one, rot), max_size=1)).map(
        lambda t: [list(g) for g in t[0]] + [list(t[1])] + [list(g) for g in t[2]] + ([list(t[3])] if t[3] else []) + [list(g) for g in t[4]]
    )


e2e_st = st.fixed_dictionaries(
    {
        # shots of the first experiment
        "base": st.sampled_from([10, 10, 123457, 10**7]),
        "exps": gen.some(st.integers(2, 3).flatmap(
                lambda n: st.fixed_dictionaries(
                    {
                        "circ": st.fixed_dictionaries({"n": st.just(n), "names": st.sampled_from(gen.NAMES), "gates": small(n)}),
                        "terms": gen.operator_st(n, 1, 2, 1),
                    }
                )
            ), 2),
        "lams": st.lists(st.sampled_from([1.0, 0.5, 0.75, 0.875, 0.25]), min_size=1, max_size=4),
        "num": st.sampled_from([3, 10, 25]),
        "seed": st.integers(0, 10**6),
        "level": st.sampled_from([0, 0, 1]),
        "compile": st.sampled_from(["none", "plain", "flatten"]),
        "again": st.booleans(),
    }
)

PARTS = [
    Part("frames", frames_st, run_frames, quick=160, thorough=6000),
    Part("many", many_st, run_frames, quick=16, thorough=300),
    Part("training", training_st, run_training, quick=300, thorough=10000),
    Part("attempts", attempts_st, run_attempts, quick=200, thorough=4000),
    Part("algebra", algebra_st, run_algebra, quick=200, thorough=6000),
    Part("e2e", e2e_st, run_e2e, quick=40, thorough=2000),
]
