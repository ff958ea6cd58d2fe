"""Observable-experiment cases shared by the MitEx checks."""

from typing import List, Tuple

from hypothesis import strategies as st
from lib import gen, refsim
from lib.pbt import check
from pytket import Circuit
from pytket.utils import QubitPauliOperator
from qermit import AnsatzCircuit, ObservableExperiment, ObservableTracker, SymbolsDict
from sympy import Symbol

NSHOTS = 10**9


def experiment_st(
    max_n=3, max_gates=8, naming=gen.NAMES, min_weight=0, symbols=True, max_terms=4, big=None, **kw
):
    g = kw or gen.UNIVERSAL
    circ = gen.circuit_st(1, max_n, max_gates, 1, naming=naming, big=big, **g)
    if big and g == gen.UNIVERSAL:
        # large circuits in which most strings have a value
        circ = st.tuples(circ, st.booleans()).map(lambda t: gen.layered(t[0]) if t[1] and t[0]["n"] > max_n else t[0])
    circ = st.tuples(circ, st.integers(0, 3)).map(lambda t: dict(t[0], impl=t[1] == 3))
    return circ.flatmap(
        lambda c: st.fixed_dictionaries(
            {
                "circ": st.just(c),
                "terms": gen.operator_st(
                    c["n"],
                    1,
                    max_terms if c["n"] <= max_n else 4 * max_terms,
                    min_weight,
                    # in the layered circuits, strings of (nearly) all qubits
                    "XYZ" * 3 + "I" if c["n"] > max_n and c["gates"][0][0] == "Ry" else "IXYZ",
                ),
                "keep_i": st.booleans(),
                # which rotation angles are symbols
                "syms": st.lists(st.integers(0, 5), max_size=3)
                if symbols
                else st.just([]),
            }
        )
    )


def twin(e, how, k):
    """an experiment which differs from e in one thing only, if there is such a thing"""
    d = dict(e["circ"])
    gs = [list(g) for g in d["gates"]]
    i = k % len(gs)
    if how in ("angle", "value"):
        rots = [j for j, g in enumerate(gs) if len(g) > 2 and g[2]]
        if not rots:
            return e
        j = rots[k % len(rots)]
        gs[j] = [gs[j][0], gs[j][1], [gs[j][2][0] + 0.5] + list(gs[j][2][1:])]
        if how == "value":
            # only the value of a symbol differs
            e = dict(e, syms=sorted({*e["syms"], k % len(rots)}))
    elif how == "qubits":
        gs[i] = [gs[i][0], list(gs[i][1])[::-1] if len(gs[i][1]) > 1 else [(gs[i][1][0] + 1) % d["n"]]] + gs[i][2:]
    elif how == "order":
        gs = gs[::-1]
    elif how == "drop" and len(gs) > 1:
        gs = gs[:i] + gs[i + 1 :]
    elif how == "impl":
        # the same commands, but the qubits of the second are permuted
        if d["n"] > 1 and not d.get("impl"):
            gs = gs + [["SWAP", [0, 1], []]]
            d["impl"] = True
    elif how == "terms":
        return dict(e, terms=[[l, round(c * 0.5 + 0.25, 6)] for l, c in e["terms"]])
    elif how == "paulis":
        t = str.maketrans("XYZ", "YZX")
        return dict(e, terms=[[l.translate(t), c] for l, c in e["terms"]])
    elif how == "names":
        d["names"] = "named" if d["names"] == "q" else "q"
    d["gates"] = gs
    return dict(e, circ=d)


def with_twins(lists):
    """lists of experiments; in one of five, experiments follow which are much like the first"""
    hows = ["angle", "value", "value", "qubits", "order", "drop", "impl", "impl", "terms", "paulis", "names"]


    def add(t):
        es, when, ts = t
        if when or not es:
            return es
        e = es[0]
        for h, k in ts:
            rots = [g for g in e["circ"]["gates"] if len(g) > 2 and g[2]]
            if h == "value" and rots:
                e = dict(e, syms=sorted({*e["syms"], k % len(rots)}))
        return [e] + [twin(e, h, k) for h, k in ts] + es[1:]

    return st.tuples(lists, st.integers(0, 4), st.lists(st.tuples(st.sampled_from(hows), st.integers(0, 20)), min_size=1, max_size=3)).map(add)


def strings(case):
    qs = gen.qubits_of(case["circ"]["n"], case["circ"]["names"])
    return [
        (gen.qps(l, qs, keep_identity=case.get("keep_i", False)), c)
        for l, c in case["terms"]
    ]


def build_exp(case, shots=NSHOTS, name=None):
    """-> (circuit, SymbolsDict, operator, exact dict string->value)"""
    d = case["circ"]
    qs = gen.qubits_of(d["n"], d["names"])
    concrete = gen.build(d)
    c = Circuit()
    if name or d["names"] != "q":
        c.name = name or "circuit"
    for q in qs:
        c.add_qubit(q)
    values = {}
    rot = 0
    symset = set(case["syms"])
    for g in d["gates"]:
        if len(g) > 2 and g[2]:
            if rot in symset:
                s = Symbol("s%d" % rot)
                values[s] = g[2][0]
                g = [g[0], g[1], [s]]
            rot += 1
        gen.add(c, g, qs)
    if d.get("impl"):
        c.replace_SWAPs()
    ss = strings(case)
    # distinct letters may give the same string only if identities are dropped
    op = QubitPauliOperator({s: co for s, co in ss})
    exact = {s: refsim.expectation(concrete, s) * co for s, co in ss}
    return c, SymbolsDict.symbols_from_dict(values), op, exact


def make(case, shots=NSHOTS, name=None, pool=None):
    """pool: circuits made before, used again for equal ones"""
    c, sd, op, exact = build_exp(case, shots, name)
    if pool is not None:
        for d in pool:
            if d == c and d.name == c.name:
                c = d
                break
        else:
            pool.append(c)
    return (
        ObservableExperiment(
            AnsatzCircuit(c, shots, sd),
            ObservableTracker(op),
        ),
        op,
        exact,
    )


def compare(res, exact, tol, what):
    got = dict(res._dict)
    check(
        set(got) == set(exact),
        "%s: result has strings %r, operator has %r" % (what, set(got), set(exact)),
    )
    for s, v in exact.items():
        g = complex(got[s])
        check(
            abs(g - v) < tol,
            lambda: "%s: <%s>*coeff = %r, exact %r" % (what, s, g, v),
        )


def fake_mitex(fn, label="Fake"):
    """A MitEx whose result for the k-th experiment of a run is fn(k, experiment): dict string -> value."""
    from lib.backends import RecordingBackend
    from qermit import MitEx, MitTask, TaskGraph

    m = MitEx(RecordingBackend(), _label=label)

    def method(
        obj, wire: List[ObservableExperiment]
    ) -> Tuple[List[QubitPauliOperator]]:
        return ([QubitPauliOperator(fn(k, e)) for k, e in enumerate(wire)],)

    tg = TaskGraph(_label=label)
    tg.append(MitTask(_label=label, _n_in_wires=1, _n_out_wires=1, _method=method))
    return m.from_TaskGraph(tg)


def exact_values(e):
    """string -> coefficient * exact expectation for an experiment without free symbols or measurements"""
    c = e.AnsatzCircuit.Circuit.copy()
    c.symbol_substitution(e.AnsatzCircuit.SymbolsDict._symbolic_map)
    return {s: complex(co).real * refsim.expectation(c, s) for s, co in e.ObservableTracker.qubit_pauli_operator._dict.items()}


@st.composite
def tracked_st(draw):
    """experiments which share trackers, or whose trackers have measurement circuits already"""
    n = draw(st.integers(1, 3))
    names = draw(st.sampled_from(gen.NAMES))
    k = draw(st.integers(1, 3))
    return {
        "n": n,
        "names": names,
        "gates": [draw(gen.gates(n, 6, 1, **gen.UNIVERSAL)) for _ in range(k)],
        "tr": [draw(st.integers(0, 1)) for _ in range(k)],
        "terms": [draw(gen.operator_st(n, 1, 4, 0)) for _ in range(2)],
        # strings measured already, with or without inversion (for trackers used once)
        "pre": [draw(st.lists(st.tuples(st.integers(0, 3), st.booleans()), max_size=2, unique_by=lambda t: t[0])) for _ in range(2)],
        "runs": draw(st.integers(1, 2)),
    }


def run_tracked(case, mitex):
    """-> whether a tracker was shared, whether one had measurement circuits"""
    from qermit.taskgraph.mitex import get_basic_measurement_circuit
    from qermit.taskgraph.utils import MeasurementCircuit

    qs = gen.qubits_of(case["n"], case["names"])
    circs = [gen.build({"n": case["n"], "names": case["names"], "gates": g}) for g in case["gates"]]
    ops = [{gen.qps(l, qs): co for l, co in t} for t in case["terms"]]
    trackers = [ObservableTracker(QubitPauliOperator(dict(o))) for o in ops]
    pre = False
    for j, tr in enumerate(trackers):
        users = [c for c, t in zip(circs, case["tr"]) if t == j]
        if len(users) != 1:
            continue
        ss = list(ops[j])
        for i, invert in case["pre"][j]:
            if i >= len(ss) or not ss[i].map:
                continue
            c = users[0].copy()
            mc, (s, bits, _) = get_basic_measurement_circuit(ss[i])
            if invert:
                # the outcome of one measured bit is flipped
                q = mc.get_commands()[-1].qubits[0]
                flip = Circuit()
                for x in mc.qubits:
                    flip.add_qubit(x)
                for b in mc.bits:
                    flip.add_bit(b)
                cmds = mc.get_commands()
                for cmd in cmds:
                    if cmd.op.type.name == "Measure" and cmd.qubits[0] == q:
                        flip.X(q)
                    flip.add_gate(cmd.op, cmd.args)
                mc = flip
            c.append(mc)
            tr.add_measurement_circuit(MeasurementCircuit(c), [(s, bits, invert)])
            pre = True
    es = [ObservableExperiment(AnsatzCircuit(c, NSHOTS, SymbolsDict()), trackers[t]) for c, t in zip(circs, case["tr"])]
    before = [(dict(t.qubit_pauli_operator._dict), len(t.measurement_circuits), set(t.get_empty_strings())) for t in trackers]
    for rep in range(case["runs"]):
        res = mitex.run(list(es))
        check(len(res) == len(es), "%d results for %d experiments" % (len(res), len(es)))
        for i, (c, t, r) in enumerate(zip(circs, case["tr"], res)):
            compare(r, {s: co * refsim.expectation(c, s) for s, co in ops[t].items()}, 1e-5 * max(1, max(abs(v) for v in ops[t].values())), "experiment %d (tracker %d of %r), run %d" % (i, t, case["tr"], rep))
        after = [(dict(t.qubit_pauli_operator._dict), len(t.measurement_circuits), set(t.get_empty_strings())) for t in trackers]
        check(after == before, "trackers were changed by the run: %r became %r" % (before, after))
    return max(case["tr"].count(0), case["tr"].count(1)) > 1, pre
