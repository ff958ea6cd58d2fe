"""ObservableTracker / SymbolsDict / MeasurementCircuit bookkeeping, model based."""

from hypothesis import strategies as st
from lib import gen, refsim
from lib.backends import result_from_counts
from lib.pbt import Part, check
from pytket import Bit, Circuit, Qubit
from qermit import MeasurementCircuit, ObservableTracker, SymbolsDict
from sympy import Symbol

PROPERTY = "C08"
RULE = (
    "tracker: a history of up to 16 calls (new with/without operator, extend, modify coefficients, remove, add measurement circuit, copy, clear, "
    "expectations of given results) over up to 4 trackers against a dictionary model, all queries compared after every call; symbols: histories on "
    "SymbolsDict and substitution in MeasurementCircuit. Non-trivial: several trackers or several kinds of mutation took effect."
)

QS = [Qubit(0), Qubit("a", 1)]
LET = [a + b for a in "IXYZ" for b in "IXYZ"]
STR = {l: gen.qps(l, QS) for l in LET}

letters = st.sampled_from(LET)
coeff = gen.coeff_st()
op_terms = st.lists(
    st.tuples(letters, coeff), min_size=1, max_size=3, unique_by=lambda t: t[0]
)
idx = st.integers(0, 3)

ops = st.one_of(
    st.tuples(st.just("default")),
    st.tuples(st.just("new"), op_terms),
    st.tuples(st.just("extend"), idx, op_terms),
    st.tuples(st.just("extend"), idx, op_terms),
    st.tuples(st.just("modify"), idx, st.lists(st.tuples(st.integers(0, 9), coeff), max_size=2)),
    st.tuples(st.just("remove"), idx, st.lists(letters, max_size=3)),
    st.tuples(
        st.just("measure"),
        idx,
        st.lists(st.tuples(st.integers(0, 9), st.integers(0, 7), st.booleans()), min_size=1, max_size=3),
    ),
    st.tuples(
        st.just("measure"),
        idx,
        st.lists(st.tuples(st.integers(0, 9), st.integers(0, 7), st.booleans()), min_size=1, max_size=3),
    ),
    st.tuples(st.just("untracked"), idx, letters),
    st.tuples(st.just("copy"), idx),
    st.tuples(st.just("copy"), idx),
    st.tuples(st.just("clear"), idx),
    st.tuples(st.just("expect"), idx, st.integers(0, 999)),
)


class TM:
    def __init__(self, terms):
        self.op = dict(terms)  # letters -> coeff
        self.circ = []  # circuit tags
        self.meas = {}  # letters -> (circ index, bits, invert)

    def copy(self):
        n = TM(self.op)
        n.circ = list(self.circ)
        n.meas = dict(self.meas)
        return n


BITSETS = [[], [0], [1], [2], [0, 1], [1, 2], [0, 2], [0, 1, 2]]


def bits_of(k):
    return [Bit(i) for i in BITSETS[k]]


def compare(t, m, step):
    w = "after %s: " % (step,)
    got = {s: complex(c) for s, c in t.qubit_pauli_operator._dict.items()}
    want = {STR[l]: complex(c) for l, c in m.op.items()}
    check(
        set(got) == set(want) and all(abs(got[s] - want[s]) < 1e-9 for s in want),
        lambda: w + "operator is %r, expected %r" % (got, want),
    )
    tags = [c.circuit.name for c in t.measurement_circuits]
    check(tags == m.circ, lambda: w + "measurement circuits %r, expected %r" % (tags, m.circ))
    empty = sorted(str(s) for s in t.get_empty_strings())
    wante = sorted(str(STR[l]) for l in m.op if l not in m.meas)
    check(empty == wante, lambda: w + "unmeasured strings %r, expected %r" % (empty, wante))
    for l in LET:
        check(
            t.check_string(STR[l]) == (l in m.op and l in m.meas),
            lambda: w + "check_string(%s) is %r" % (l, t.check_string(STR[l])),
        )
        if l in m.op:
            mc = [c.circuit.name for c in t.get_measurement_circuits(STR[l])]
            wantc = [m.circ[m.meas[l][0]]] if l in m.meas else []
            check(mc == wantc, lambda: w + "circuits of %s: %r, expected %r" % (l, mc, wantc))


def run(case):
    ts, ms = [], []
    kinds = set()
    ncirc = 0
    for op in [("new", case["first"])] + list(case["ops"]):
        k = op[0]
        if k in ("default", "new"):
            if len(ts) < 4:
                terms = op[1] if k == "new" else []
                ts.append(
                    ObservableTracker(gen.operator(terms, QS))
                    if k == "new"
                    else ObservableTracker()
                )
                ms.append(TM(terms))
        elif not ts:
            continue
        else:
            i = op[1] % len(ts)
            t, m = ts[i], ms[i]
            if k == "extend":
                t.extend_operator(gen.operator(op[2], QS))
                for l, c in op[2]:
                    m.op[l] = m.op.get(l, 0) + c
                kinds.add(k)
            elif k == "modify":
                ls = sorted(m.op)
                if ls:
                    new = [(ls[a % len(ls)], c) for a, c in op[2]]
                    t.modify_coefficients([(STR[l], c) for l, c in new])
                    for l, c in new:
                        m.op[l] = c
                    kinds.add(k)
            elif k == "remove":
                t.remove_strings([STR[l] for l in op[2]])
                for l in op[2]:
                    m.op.pop(l, None)
                    m.meas.pop(l, None)
                kinds.add(k)
            elif k == "measure":
                ls = [l for l in sorted(m.op) if l not in m.meas]
                info, used = [], set()
                for a, b, inv in op[2]:
                    if ls:
                        l = ls[a % len(ls)]
                        if l not in used:
                            used.add(l)
                            info.append((l, b, inv))
                if info:
                    c = Circuit(2, name="mc%d" % ncirc)
                    ncirc += 1
                    t.add_measurement_circuit(
                        MeasurementCircuit(c),
                        [(STR[l], bits_of(b), inv) for l, b, inv in info],
                    )
                    m.circ.append(c.name)
                    for l, b, inv in info:
                        m.meas[l] = (len(m.circ) - 1, b, inv)
                    kinds.add(k)
            elif k == "untracked":
                if op[2] not in m.op:
                    # on a throw-away tracker holding the same strings
                    tmp = ObservableTracker(gen.operator(sorted(m.op.items()), QS))
                    for f in (
                        lambda: tmp.add_measurement_circuit(
                            MeasurementCircuit(Circuit(1)), [(STR[op[2]], [Bit(0)], False)]
                        ),
                        lambda: tmp.modify_coefficients([(STR[op[2]], 1.0)]),
                    ):
                        try:
                            f()
                        except ValueError:
                            continue
                        check(False, "untracked string %s accepted" % op[2])
            elif k == "copy":
                if len(ts) < 4:
                    ts.append(ObservableTracker.from_ObservableTracker(t))
                    ms.append(m.copy())
                    kinds.add(k)
            elif k == "clear":
                t.clear()
                m.circ, m.meas = [], {}
                kinds.add(k)
            elif k == "expect":
                if all(l in m.op for l in m.meas):
                    check_expect(t, m, op[2])
                    if m.meas:
                        kinds.add(k)
        for i, (t, m) in enumerate(zip(ts, ms)):
            compare(t, m, "%r (tracker %d)" % (op, i))
    for t, m in zip(ts, ms):
        check_expect(t, m, 3)
    return {
        "nontrivial": len(kinds) >= 2,
        "labels": sorted(kinds) + ["trackers%d" % len(ts)],
    }


def check_expect(t, m, salt):
    """results[i] has counts that depend on salt and i"""
    results, raw = [], []
    for i in range(len(m.circ)):
        cnt = {}
        for v in range(8):
            n = (salt * 7 + i * 5 + v * (salt % 5 + 1)) % 11
            if n:
                cnt[((v >> 2) & 1, (v >> 1) & 1, v & 1)] = n
        cnt = cnt or {(0, 1, 0): 3}
        raw.append(cnt)
        results.append(result_from_counts(cnt, [Bit(0), Bit(1), Bit(2)]))
    out = t.get_expectations(results)
    got = {s: complex(c) for s, c in out._dict.items()}
    want = {}
    for l, c in m.op.items():
        if l in m.meas:
            ci, b, inv = m.meas[l]
            tot = sum(raw[ci].values())
            e = sum((-1) ** (sum(k[j] for j in BITSETS[b])) * n for k, n in raw[ci].items()) / tot
            want[STR[l]] = (-1 if inv else 1) * e * c
        else:
            want[STR[l]] = 0
    check(
        set(got) == set(want) and all(abs(got[s] - want[s]) < 1e-9 for s in want),
        lambda: "expectations %r, expected %r" % (got, want),
    )


NAMES = ["a", "b", "c", "d"]
sym_ops = st.one_of(
    st.tuples(st.just("add"), st.sampled_from(NAMES), st.booleans()),
    st.tuples(st.just("value"), st.sampled_from(NAMES), st.integers(-8, 8)),
    st.tuples(st.just("set"), st.lists(st.integers(-8, 8), min_size=4, max_size=4)),
    st.tuples(st.just("map"), st.lists(st.integers(-8, 8), min_size=4, max_size=4)),
)
sym_st = st.fixed_dictionaries(
    {
        "start": st.sampled_from(["empty", "list", "dict", "circuit"]),
        "syms": st.lists(st.sampled_from(NAMES), unique=True, max_size=4),
        "ops": st.lists(sym_ops, max_size=8),
    }
)


def run_sym(case):
    S = {n: Symbol(n) for n in NAMES}
    if case["start"] == "empty":
        d, model = SymbolsDict(), {}
    elif case["start"] == "list":
        d = SymbolsDict.symbols_from_list(
            [S[n] if i % 2 else n for i, n in enumerate(case["syms"])]
        )
        model = {n: None for n in case["syms"]}
    elif case["start"] == "dict":
        d = SymbolsDict.symbols_from_dict({S[n]: i for i, n in enumerate(case["syms"])})
        model = {n: i for i, n in enumerate(case["syms"])}
    else:
        c = Circuit(1)
        for n in case["syms"]:
            c.Rx(S[n], 0)
        d = SymbolsDict.symbols_from_circuit(c)
        order = [str(s) for s in d.symbols_list]
        check(sorted(order) == sorted(case["syms"]), "symbols %r" % (order,))
        model = {n: None for n in order}
    for op in case["ops"]:
        if op[0] == "add":
            d.add_symbol(S[op[1]] if op[2] else op[1])
            model[op[1]] = None
        elif op[0] == "value":
            if op[1] in model:
                d.add_value(S[op[1]], op[2] / 4)
                model[op[1]] = op[2] / 4
            else:
                try:
                    d.add_value(S[op[1]], 1.0)
                except ValueError:
                    pass
                else:
                    check(False, "value accepted for a symbol that is not held")
        elif op[0] == "set":
            vals = [v / 4 for v in op[1]][: len(model)]
            d.set_values(vals)
            model = dict(zip(model, vals))
        elif op[0] == "map":
            vals = [v / 4 for v in op[1]][: len(model)]
            got = {str(k): v for k, v in d.get_symbolic_map(vals).items()}
            check(got == dict(zip(model, vals)), "map %r for %r" % (got, model))
        check(
            [str(s) for s in d.symbols_list] == list(model),
            "symbols %r, expected %r" % (list(d.symbols_list), list(model)),
        )
    # substitution
    for i, n in enumerate(model):
        if model[n] is None:
            d.add_value(S[n], 0.25 * i + 0.125)
            model[n] = 0.25 * i + 0.125
    c, ref = Circuit(2), Circuit(2)
    for i, n in enumerate(model):
        c.Rx(S[n], i % 2).CX(i % 2, (i + 1) % 2).Rz(S[n] * 2 + 0.5, 0)
        ref.Rx(model[n], i % 2).CX(i % 2, (i + 1) % 2).Rz(model[n] * 2 + 0.5, 0)
    keep = c.copy()
    mc = MeasurementCircuit(c, d)
    check([str(s) for s in mc.symbols] == list(model), "symbols of the measurement circuit")
    for _ in range(2):
        p = mc.get_parametric_circuit()
        check(not p.free_symbols(), "symbols left after substitution")
        check(
            refsim.equal_up_to_phase(refsim.unitary(p), refsim.unitary(ref)),
            "substituted circuit differs from the one with the values put in",
        )
    check(c == keep and mc.circuit == keep, "substitution changed the symbolic circuit")
    return {"nontrivial": len(model) >= 2, "labels": [case["start"]]}


PARTS = [
    Part("tracker", st.fixed_dictionaries({"first": op_terms, "ops": st.lists(ops, min_size=2, max_size=16)}), run, quick=1600, thorough=40000, shards=8),
    Part("symbols", sym_st, run_sym, quick=500, thorough=8000, shards=4),
]
