"""Depolarisation factor supression by Clifford characterisation (DFSC)."""

import numpy as np
from checks import exps
from checks.exps import exact_values, fake_mitex
from hypothesis import strategies as st
from lib import gen, refsim
from lib.backends import RecordingBackend
from lib.pbt import Part, check
from pytket import Circuit, OpType
from pytket.circuit import CircBox, PauliExpBox
from pytket.pauli import Pauli
from pytket.utils import QubitPauliOperator
from qermit import AnsatzCircuit, ObservableExperiment, ObservableTracker, SymbolsDict
from qermit.clifford_noise_characterisation import gen_DFSC_MitEx
from qermit.clifford_noise_characterisation.dfsc import (
    DFSC_characterisation_task_gen,
    DFSC_circuit_task_gen,
    DFSC_collater_task_gen,
    DFSC_correction_task_gen,
)
from sympy import Symbol

PROPERTY = "C23"
RULE = (
    "A case is a list of experiments whose circuits are Clifford apart from symbols (characterisation circuits compared with the experiment's at zero angles, and "
    "simulated), arbitrary results and thresholds (collating, averaging and correcting against a direct computation), or experiments sent through the whole mitigation on a "
    "device which damps every string by its own factor, or by global depolarising noise per two-qubit gate. Non-trivial: a characterised string of weight at least one with "
    "symbols or two-qubit gates in the circuit; a value corrected; or a mitigated value differing from the noisy one."
)
TECHNIQUE = "property-based testing (Hypothesis): simulation of characterisation circuits, reference computation of corrections, exact recovery from planted damping"

ROT1 = ["Rz", "Rx", "Ry"]
ROT2 = ["ZZPhase", "XXPhase", "CRz"]


def item(n):
    pair = st.permutations(range(n)).map(lambda p: list(p[:2]))
    one = st.integers(0, n - 1).map(lambda i: [i])
    coef = st.sampled_from([1, 1, -1, 2, 0.5])
    opts = [
        st.tuples(st.just("c"), gen.gate(n)),
        st.tuples(st.just("c"), gen.gate(n, ones=["SX"], twos=["ECR", "CX"], rots=ROT1, ang=gen.cliff_angle)),
        st.tuples(st.just("s"), st.sampled_from(ROT1), one, st.integers(0, 3), coef),
        st.tuples(st.just("bar"), one),
    ]
    if n > 1:
        opts.append(st.tuples(st.just("s"), st.sampled_from(ROT2), pair, st.integers(0, 3), coef))
        opts.append(st.tuples(st.just("pauli"), pair, st.text("XYZ", min_size=2, max_size=2), st.integers(0, 3)))
        opts.append(st.tuples(st.just("circ"), pair, st.integers(0, 3)))
    return st.one_of(opts)


def exp_st(max_n=3, max_ops=8):
    return st.integers(1, max_n).flatmap(
        lambda n: st.fixed_dictionaries(
            {
                "n": st.just(n),
                "names": st.sampled_from(gen.NAMES),
                "ops": st.lists(item(n), max_size=max_ops),
                "swap": st.booleans(),
                "terms": st.integers(0, 24).flatmap(lambda k: gen.operator_st(n, 1, 20 if k == 24 and n > 2 else 3, 0)),
                "keep_i": st.booleans(),
                "values": st.lists(gen.angle, min_size=4, max_size=4),
            }
        )
    )


def build(case, shots):
    n = case["n"]
    qs = gen.qubits_of(n, case["names"])
    c = Circuit(name="mine")
    for q in qs:
        c.add_qubit(q)
    sy = [Symbol("s%d" % i) for i in range(4)]
    for k, o in enumerate(case["ops"]):
        if o[0] == "c":
            gen.add(c, o[1], qs)
        elif o[0] == "s":
            c.add_gate(gen._OT[o[1]], [o[4] * sy[o[3]]], [qs[i] for i in o[2]])
        elif o[0] == "bar":
            c.add_barrier([qs[i] for i in o[1]])
        elif o[0] == "pauli":
            c.add_pauliexpbox(PauliExpBox([gen.P[x] for x in o[2]], sy[o[3]]), [qs[i] for i in o[1]])
        else:
            c.add_circbox(CircBox(Circuit(2).H(0).CX(0, 1).Rz(sy[o[2]], 1).S(1)), [qs[i] for i in o[1]])
    if case["swap"] and n > 1:
        c.SWAP(qs[0], qs[-1])
        c.replace_SWAPs()
    sd = SymbolsDict.symbols_from_dict({s: case["values"][int(s.name[1:])] for s in c.free_symbols()})
    ss = {gen.qps(l, qs, keep_identity=case["keep_i"]): co for l, co in case["terms"]}
    op = QubitPauliOperator(dict(ss))
    return ObservableExperiment(AnsatzCircuit(c, shots, sd), ObservableTracker(op)), ss


def snapshot(e):
    return (
        e.AnsatzCircuit.Circuit.to_dict(),
        e.AnsatzCircuit.Shots,
        dict(e.AnsatzCircuit.SymbolsDict._symbolic_map),
        dict(e.ObservableTracker.qubit_pauli_operator._dict),
        len(e.ObservableTracker.measurement_circuits),
    )


MULTI = {OpType.CX, OpType.CZ, OpType.CY, OpType.SWAP, OpType.ZZMax, OpType.ECR, OpType.ZZPhase, OpType.XXPhase, OpType.CRz, OpType.PauliExpBox, OpType.CircBox}


def multi(c):
    """per qubit: sequence of types and arguments of gates of several qubits"""
    out = {q: [] for q in c.qubits}
    for cmd in c.get_commands():
        if cmd.op.type in MULTI:
            for q in cmd.qubits:
                out[q].append((cmd.op.type, tuple(cmd.qubits)))
    return out


def at_zero(c):
    c = c.copy()
    c.symbol_substitution({s: 0.0 for s in c.free_symbols()})
    return c


def check_characterisation(x, src, string):
    ac = x.AnsatzCircuit
    check(ac.Shots == src.AnsatzCircuit.Shots, "characterisation with %r shots, experiment with %r" % (ac.Shots, src.AnsatzCircuit.Shots))
    check(dict(x.ObservableTracker.qubit_pauli_operator._dict) == {string: 1}, "characterisation of %r measures %r" % (string, x.ObservableTracker.qubit_pauli_operator))
    base = at_zero(src.AnsatzCircuit.Circuit)
    check(set(ac.Circuit.qubits) == set(base.qubits), "characterisation over other qubits than the experiment")
    check(multi(ac.Circuit) == multi(base), lambda: "characterisation has other two-qubit gates than the experiment: %r became %r" % (base.get_commands(), ac.Circuit.get_commands()))
    (v,) = exact_values(x).values()
    check(
        abs(abs(v) - 1) < 1e-7,
        lambda: "without noise the characterisation of %s for %r is %r, so it does not measure the damping" % (string, base.get_commands(), v),
    )
    # the circuit applies the experiment's circuit to a product state
    uc, ub = refsim.unitary(ac.Circuit), refsim.unitary(base)
    idx_c, idx_b = list(ac.Circuit.qubits), list(base.qubits)
    check(idx_c == idx_b, "qubits of the characterisation in another order")
    psi = np.linalg.solve(ub, uc[:, 0]).reshape([2] * len(idx_c))
    for q in range(len(idx_c)):
        m = np.moveaxis(psi, q, 0).reshape(2, -1)
        check(abs(np.linalg.svd(m)[1][0] - 1) < 1e-7, "the experiment's circuit is not applied to a product state")
    # measurement circuits
    mcs = x.ObservableTracker.measurement_circuits
    check(len(mcs) == 1, "%d measurement circuits for a string" % len(mcs))
    mc = mcs[0].get_parametric_circuit()
    d = refsim.distribution(mc)
    if not string.map or all(p == Pauli.I for p in string.map.values()):
        return v
    par = sum(p * (-1) ** sum(k) for k, p in d.items())
    check(len(mc.bits) == sum(p != Pauli.I for p in string.map.values()), "measured bits")
    check(abs(par - v) < 1e-7, "measurement circuit gives %r, state has %r" % (par, v))
    return v


def run_circuits(case):
    built = [build(e, case.get("base", 10) + i) for i, e in enumerate(case["exps"])]
    es = [b[0] for b in built]
    before = [snapshot(e) for e in es]
    if case["bad"] is not None:
        i, which, a = case["bad"]
        e = es[i % len(es)]
        e.AnsatzCircuit.Circuit.add_gate(gen._OT[which], [a] if which != "T" else [], [e.AnsatzCircuit.Circuit.qubits[0]])
        try:
            DFSC_circuit_task_gen()(([e for e in es],))
        except Exception:
            return {"nontrivial": True, "labels": ["refused"]}
        check(False, "a circuit with the non-Clifford gate %s is characterised" % which)
    out, char = DFSC_circuit_task_gen()((list(es),))
    check(len(out) == len(es) and all(a is b or a == b for a, b in zip(out, es)), "experiments changed")
    check([snapshot(e) for e in es] == before, "characterising changed the experiments it was given")
    check(len(char) == len(es), "characterisations of %d experiments for %d" % (len(char), len(es)))
    nt = False
    labels = set()
    for (e, ss), cliffs in zip(built, char):
        check(len(cliffs) == 1, "Clifford circuits per experiment")
        (xs,) = cliffs
        check(len(xs) == len(ss), "%d characterisations for %d strings" % (len(xs), len(ss)))
        strings = [next(iter(x.ObservableTracker.qubit_pauli_operator._dict)) for x in xs]
        check(set(strings) == set(ss), "strings characterised: %r, of the experiment: %r" % (strings, list(ss)))
        for x, s in zip(xs, strings):
            v = check_characterisation(x, e, s)
            labels.add("plus" if v > 0 else "minus")
            if s.map and (e.AnsatzCircuit.Circuit.free_symbols() or e.AnsatzCircuit.Circuit.n_2qb_gates()):
                nt = True
    return {"nontrivial": nt, "labels": sorted(labels)}


circuits_st = st.fixed_dictionaries(
    {
        "exps": st.lists(exp_st(), min_size=0, max_size=3),
        # shots of the first experiment
        "base": st.sampled_from([10, 10, 123457, 10**7]),
        "bad": st.none() | st.none() | st.none() | st.tuples(st.integers(0, 2), st.sampled_from(["T", "Rz", "Rx"]), st.sampled_from([0.25, 0.3, 1.1])),
    }
).map(lambda d: d if d["exps"] else {**d, "bad": None})


# ---------------------------------------------------------------- tasks
num = st.one_of(st.floats(-1, 1).map(lambda x: round(x, 4)), st.sampled_from([0.0, 1.0, -1.0, 0.01, 0.1, -0.1, 0.5]))


def run_tasks(case):
    qs = gen.qubits_of(2, "q")
    letters = case["letters"]
    strings = [gen.qps(l, qs) for l in letters]
    # collate: experiments -> Clifford circuits -> strings
    tag = 0
    nested, flat, sizes = [], [], []
    for e in case["exps"]:
        per = []
        for cl in e["cliffs"]:
            row = []
            for _ in cl:
                tag += 1
                x = ObservableExperiment(AnsatzCircuit(Circuit(2), tag, SymbolsDict()), ObservableTracker())
                row.append(x)
                flat.append(x)
            per.append(row)
        nested.append(per)
        sizes.append(sum(len(r) for r in per))
    got, idx = DFSC_collater_task_gen()((nested,))
    check([x.AnsatzCircuit.Shots for x in got] == [x.AnsatzCircuit.Shots for x in flat], "collated experiments are others, or in another order")
    check(list(idx) == sizes, "sizes %r, given %r" % (idx, sizes))
    # average
    results, expect, counts = [], [], {}
    for e in case["exps"]:
        acc = {}
        for cl in e["cliffs"]:
            for k, v in cl:
                s = strings[k % len(strings)]
                results.append(QubitPauliOperator({s: v}))
                acc.setdefault(s, []).append(v)
        expect.append({s: sum(v) / len(v) for s, v in acc.items()})
        counts.update({(id(expect[-1]), s): len(v) for s, v in acc.items()})
    (ch,) = DFSC_characterisation_task_gen()((results, list(idx)))
    check(len(ch) == len(expect), "characterisations for %d experiments, given %d" % (len(ch), len(expect)))
    for a, b in zip(ch, expect):
        check(set(a._dict) == set(b), "strings of characterisations")
        for s in b:
            check(abs(complex(a._dict[s]) - b[s]) < 1e-12, "characterisation of %s is %r, mean %r" % (s, a._dict[s], b[s]))
    # correct
    noisy = [{s: case["noisy"][(i + j) % len(case["noisy"])] for j, s in enumerate(b)} for i, b in enumerate(expect)]
    qpo = [QubitPauliOperator(dict(d)) for d in noisy]
    thr = case["threshold"]
    (cor,) = DFSC_correction_task_gen(thr)((qpo, ch))
    check(len(cor) == len(noisy), "number of corrected results")
    nt = False
    for a, d, b in zip(cor, noisy, expect):
        check(set(a._dict) == set(d), "strings of corrected results")
        for s, v in d.items():
            lam = abs(b[s])
            # a characterisation which is exactly the threshold is not above it
            if abs(lam - thr) < 1e-9 and not (lam == 0 or (counts[(id(b), s)] == 1 and lam == thr)):
                continue
            want = v / lam if lam > thr else v
            nt |= lam > thr and abs(want - v) > 1e-6
            check(abs(complex(a._dict[s]) - want) < 1e-9 * max(1, abs(want)), "%r with characterisation %r and threshold %r corrected to %r" % (v, b[s], thr, a._dict[s]))
    check([dict(q._dict) for q in qpo] == noisy, "correcting changed the results it was given")
    if case["drop"] and len(ch) > 0:
        try:
            DFSC_correction_task_gen(thr)((qpo, ch[:-1]))
        except ValueError:
            pass
        else:
            check(False, "results and characterisations of different numbers are accepted")
    return {"nontrivial": nt, "labels": ["drop"] if case["drop"] else []}


tasks_st = st.fixed_dictionaries(
    {
        "letters": st.lists(gen.letters_st(2), min_size=1, max_size=4, unique=True),
        "exps": gen.some(
            st.fixed_dictionaries({"cliffs": gen.some(st.lists(st.tuples(st.integers(0, 3), num), min_size=1, max_size=3), 3)}),
            4,
        ),
        "noisy": st.lists(num, min_size=1, max_size=6),
        "threshold": st.sampled_from([0.01, 0.01, 0.0, 0.1, 0.5]),
        "drop": st.booleans(),
    }
)


# ---------------------------------------------------------------- whole mitigation
def run_e2e(case):
    built = [build(e, case.get("base", 10) + i) for i, e in enumerate(case["exps"])]
    es = [b[0] for b in built]
    before = [snapshot(e) for e in es]
    truth = [exact_values(e) for e in es]
    thr = case["threshold"]
    lams = {}

    def lam(shots, s):
        """damping of a string in the circuits of an experiment"""
        if (shots, s) not in lams:
            lams[(shots, s)] = case["lams"][(shots * 3 + sum((i + 1) * p.value for i, (_, p) in enumerate(sorted(s.map.items(), key=str)))) % len(case["lams"])]
        return lams[(shots, s)]

    log = {"exp": 0, "char": 0}

    def f(kind):
        def g(k, e):
            log[kind] += 1
            return {s: lam(e.AnsatzCircuit.Shots, s) * v for s, v in exact_values(e).items()}

        return g

    kw = {"DFSC_threshold": thr} if thr is not None else {}
    mit = gen_DFSC_MitEx(RecordingBackend(), experiment_mitex=fake_mitex(f("exp"), "E"), characterisation_mitex=fake_mitex(f("char"), "C"), **kw)
    nt = False
    for rep in range(case["runs"]):
        log["exp"] = log["char"] = 0
        res = mit.run(es)
        check(log["exp"] == len(es), "%d experiments run for %d" % (log["exp"], len(es)))
        check(log["char"] == sum(len(t) for t in truth), "%d characterisations run" % log["char"])
        check([snapshot(e) for e in es] == before, "the experiments were changed")
        check(len(res) == len(es), "number of results")
        for j, (r, t) in enumerate(zip(res, truth)):
            check(set(r._dict) == set(t), "strings of result %d" % j)
            for s, v in t.items():
                x = lam(case.get("base", 10) + j, s)
                want = v if x > (0.01 if thr is None else thr) else x * v
                nt |= abs(v) > 1e-3 and want == v and x < 1
                check(abs(complex(r._dict[s]) - want) < 1e-7, lambda: "run %d experiment %d <%s> = %r, expected %r (exact %r, damping %r)" % (rep, j, s, r._dict[s], want, v, x))
    return {"nontrivial": nt, "labels": []}


e2e_st = st.fixed_dictionaries(
    {
        "exps": gen.some(exp_st(3, 7), 3),
        "lams": st.lists(st.one_of(st.floats(0.02, 1).map(lambda x: round(x, 3)), st.sampled_from([1.0, 0.005, 0.0, 0.25])), min_size=2, max_size=6).map(
            lambda l: [x if abs(x - 0.2) > 1e-3 else 0.21 for x in l]
        ),
        "threshold": st.sampled_from([None, None, 0.2]),
        # shots of the first experiment
        "base": st.sampled_from([10, 10, 123457, 10**7]),
        "runs": st.sampled_from([1, 1, 2]),
    }
)


def run_default(case):
    """no MitEx given; global depolarising noise for every two-qubit gate the device executes, or every circuit"""
    p = case["p"]
    counts = []

    def hook(circ, d):
        w = len(circ.bits)
        # routing may treat the two circuits differently
        k2 = circ.n_2qb_gates() if case["compile"] != "routed" else 1
        counts.append(k2)
        if not w:
            return d
        keep = (1 - p) ** k2
        out = {k: keep * v for k, v in d.items()}
        for i in range(2**w):
            k = tuple((i >> b) & 1 for b in range(w))
            out[k] = out.get(k, 0) + (1 - keep) / 2**w
        return out

    dev = RecordingBackend(dist_hook=hook, compile_kind=case["compile"], strict=True)
    built = [build(e, 10**9) for e in case["exps"]]
    es = [b[0] for b in built]
    truth = [exact_values(e) for e in es]
    res = gen_DFSC_MitEx(dev).run(es)
    check(len(res) == len(es), "number of results")
    m = (1 - p) ** max(counts, default=0)
    if m < 0.05:
        return {"nontrivial": False, "labels": ["too noisy"]}
    nt = False
    for r, t in zip(res, truth):
        check(set(r._dict) == set(t), "strings of the result")
        for s, v in t.items():
            check(abs(complex(r._dict[s]) - v) < 1e-6 / m, lambda: "<%s> = %r, exact %r" % (s, r._dict[s], v))
            nt |= abs(v) > 1e-3 and m < 1 and bool(s.map)
    return {"nontrivial": nt, "labels": [case["compile"]]}


def simple(n):
    return st.one_of(
        st.tuples(st.just("c"), gen.gate(n, twos=["CX"])),
        st.tuples(st.just("s"), st.sampled_from(ROT1), st.integers(0, n - 1).map(lambda i: [i]), st.integers(0, 3), st.just(1)),
    )


default_st = st.fixed_dictionaries(
    {
        "p": st.sampled_from([0.0, 0.02, 0.1, 0.3]),
        "compile": st.sampled_from(["plain", "flatten", "routed"]),
        "exps": st.lists(
            st.integers(1, 3).flatmap(
                lambda n: st.fixed_dictionaries(
                    {
                        "n": st.just(n),
                        "names": st.sampled_from(gen.NAMES),
                        "ops": st.lists(simple(n), min_size=1, max_size=8),
                        "swap": st.booleans(),
                        "terms": gen.operator_st(n, 1, 3, 0),
                        "keep_i": st.booleans(),
                        "values": st.lists(gen.angle, min_size=4, max_size=4),
                    }
                )
            ),
            min_size=1,
            max_size=2,
        ),
    }
)

PARTS = [
    Part("circuits", circuits_st, run_circuits, quick=1000, thorough=20000),
    Part("tasks", tasks_st, run_tasks, quick=800, thorough=10000),
    Part("e2e", e2e_st, run_e2e, quick=600, thorough=10000),
    Part("default", default_st, run_default, quick=300, thorough=5000),
]
