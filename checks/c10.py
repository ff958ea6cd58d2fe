"""Extrapolation to zero noise and the bookkeeping around it."""

import numpy as np
from hypothesis import strategies as st
from lib import gen, refsim
from lib.backends import RecordingBackend
from lib.pbt import Part, check
from checks.exps import experiment_st, make, with_twins
from pytket.utils import QubitPauliOperator
from qermit.noise_model import NoiseModel
from qermit.noise_model.noise_model import ErrorDistribution
from pytket import Circuit, OpType
from qermit import MeasurementCircuit
from pytket.pauli import Pauli
from qermit.zero_noise_extrapolation import Fit, Folding
from qermit.zero_noise_extrapolation.zne import (
    digital_folding_task_gen,
    extrapolation_task_gen,
    gen_duplication_task,
    merge_experiments_task_gen,
)

PROPERTY = "C10"
RULE = (
    "fit: data generated exactly from a member of the fitted family (polynomials of degree 0-4, a+b*exp(cx+..), a+b*cuberoot(x+c)) at 2-7 distinct "
    "noise scalings in any order; task: the same for 1-3 (rarely 12) experiments with 1-4 strings each through the extrapolation task; least_squares: arbitrary data; duplicate/fold/merge: 1-3 "
    "experiments, 1-4 copies, merging of arbitrarily interleaved results. Non-trivial: non-constant data / more than one experiment."
)

coef = st.integers(-100, 100).map(lambda k: k / 50)
xs_st = st.lists(st.integers(5, 28).map(lambda k: k / 4), min_size=1, max_size=6, unique=True)


@st.composite
def fit_case(draw):
    kind = draw(st.sampled_from(["polynomial", "polynomial", "linear", "richardson", "exponential", "exponential", "poly_exponential", "cube_root"]))
    xs = [1.0] + draw(xs_st)
    xs = sorted(set(xs))
    if kind in ("exponential", "poly_exponential", "cube_root"):
        # the non-linear fits are iterative: well conditioned data only
        step = draw(st.sampled_from([0.5, 1.0, 2.0]))
        xs = [1 + step * i for i in range(draw(st.integers(4, 6)))]
    order = draw(st.permutations(xs))
    if kind == "linear":
        deg = 1
    elif kind == "richardson":
        deg = len(xs) - 1
    else:
        deg = draw(st.integers(0, min(4, len(xs) - 1)))
    cs = draw(st.lists(coef, min_size=deg + 1, max_size=deg + 1))
    a = draw(st.integers(-5, 5)) / 50
    b = draw(st.integers(25, 50)) / 50
    c = -draw(st.integers(12, 32)) / 40
    if kind == "cube_root":
        c = draw(st.integers(0, 20)) / 40
    return {"kind": kind, "x": list(order), "deg": deg, "cs": cs, "a": a, "b": b, "c": c}


def data(case, scale=1.0):
    """-> (y list, value at zero, fit function, deg argument)"""
    k, x = case["kind"], case["x"]
    if k in ("polynomial", "linear", "richardson"):
        f = lambda t: sum(c * t**i for i, c in enumerate(case["cs"])) * scale  # noqa: E731
    elif k in ("exponential", "poly_exponential"):
        f = lambda t: (case["a"] + case["b"] * np.exp(case["c"] * t)) * scale  # noqa: E731
    else:
        f = lambda t: case["a"] + case["b"] * np.cbrt(t + case["c"]) * 1.0  # noqa: E731
    deg = 1 if k == "poly_exponential" else case["deg"]
    return [float(f(t)) for t in x], float(f(0.0)), getattr(Fit, k), deg


def tol(case, y):
    """conditioning of the extrapolation: size of the Lagrange weights at 0"""
    k, x = case["kind"], case["x"]
    m = max(1.0, max(abs(v) for v in y))
    if k in ("polynomial", "linear", "richardson"):
        # least squares weights for the value at 0
        deg = 1 if k == "linear" else case["deg"]
        w = np.linalg.pinv(np.vander(np.array(x), deg + 1, increasing=True))[0]
        return 1e-9 * m * max(1.0, np.abs(w).sum())
    return (2e-2 if k == "cube_root" else 5e-3) * m


def run_fit(case):
    y, want, fit, deg = data(case)
    got = fit(list(case["x"]), list(y), False, deg)
    check(isinstance(got, float), "fit returned %r" % (got,))
    check(
        abs(got - want) < tol(case, y),
        lambda: "%s fit of exact data x=%r y=%r gives %r, the function's value at 0 is %r"
        % (case["kind"], case["x"], y, got, want),
    )
    return {
        "nontrivial": max(y) - min(y) > 1e-6,
        "err": abs(got-want), "labels": [case["kind"], "deg%d" % case["deg"]],
    }


def run_refuse(case):
    """degrees the data cannot determine are refused, the largest allowed is not"""
    x, deg = case["x"], case["deg"]
    y = case["y"][: len(x)]
    lim = len(x) - 1 if case["kind"] == "polynomial" else len(x) - 2
    f = getattr(Fit, case["kind"])
    if 0 <= deg <= lim:
        if case["kind"] == "polynomial":
            f(list(x), list(y), False, deg)
            if deg == len(x) - 1:
                # interpolation: independent of the order of the points
                v = f(list(x), list(y), False, deg)
                w = f(list(reversed(x)), list(reversed(y)), False, deg)
                r = Fit.richardson(list(x), list(y), False)
                # Lagrange
                L = sum(
                    yy * np.prod([-xj / (xi - xj) for j, xj in enumerate(x) if j != i])
                    for i, (xi, yy) in enumerate(zip(x, y))
                )
                scale = sum(
                    abs(np.prod([-xj / (xi - xj) for j, xj in enumerate(x) if j != i]))
                    for i, xi in enumerate(x)
                )
                for n, g in (("polynomial", v), ("reversed", w), ("richardson", r)):
                    check(
                        abs(g - L) < 1e-8 * max(1, scale),
                        lambda: "%s extrapolation of x=%r y=%r is %r, interpolating polynomial gives %r" % (n, x, y, g, L),
                    )
                return {"labels": ["interpolation"]}
        return {"nontrivial": False}
    try:
        f(list(x), list(y), False, deg)
    except ValueError:
        return {"labels": ["refused"]}
    check(False, "%s fit of degree %d accepted for %d points" % (case["kind"], deg, len(x)))


refuse_case = st.fixed_dictionaries(
    {
        "kind": st.sampled_from(["polynomial", "polynomial", "poly_exponential"]),
        "x": st.lists(st.integers(5, 28).map(lambda k: k / 4), min_size=1, max_size=5, unique=True).map(
            lambda l: [1.0] + [v for v in l if v != 1.0]
        ),
        "y": st.lists(st.integers(-50, 50).map(lambda k: k / 50), min_size=6, max_size=6),
        "deg": st.integers(-2, 7),
    }
)


# ---- data off the family: the best fitting polynomial
lsq_case = st.fixed_dictionaries(
    {
        "x": st.lists(st.integers(5, 28).map(lambda k: k / 4), min_size=1, max_size=8, unique=True).map(
            lambda l: [1.0] + [v for v in l if v != 1.0]
        ),
        "y": st.lists(st.integers(-50, 50).map(lambda k: k / 50), min_size=9, max_size=9),
        "deg": st.integers(0, 3),
        "perm": st.permutations(range(9)),
    }
)


def run_lsq(case):
    order = [i for i in case["perm"] if i < len(case["x"])]
    x = [case["x"][i] for i in order]
    y = [case["y"][i] for i in order]
    deg = min(case["deg"], len(x) - 1)
    for name, f, d in (("polynomial", Fit.polynomial, deg), ("linear", Fit.linear, 1)):
        if d >= len(x):
            continue
        w = np.linalg.pinv(np.vander(np.array(x), d + 1, increasing=True))[0]
        want = float(w @ np.array(y))
        keep = (list(x), list(y))
        got = f(x, y, False, d)
        check((x, y) == keep, "the data was changed by the fit")
        check(
            abs(got - want) < 1e-8 * max(1.0, np.abs(w).sum()),
            lambda: "%s fit (degree %d) of x=%r y=%r gives %r, least squares gives %r" % (name, d, x, y, got, want),
        )
    return {"nontrivial": len(x) > deg + 1, "labels": ["deg%d" % deg]}


# ---- extrapolation task
@st.composite
def task_case(draw):
    base = draw(fit_case().filter(lambda c: c["kind"] in ("polynomial", "linear", "richardson", "exponential")))
    n = draw(gen.size(1, 3, 12))
    exps = []
    for _ in range(n):
        ls = draw(st.lists(gen.letters_st(2), min_size=1, max_size=4, unique=True))
        exps.append([[l, draw(st.integers(1, 9)) / 9] for l in ls])
    return {"fit": base, "exps": exps, "perm": draw(st.booleans())}


def run_task(case):
    fc = case["fit"]
    x = fc["x"]
    qs = gen.qubits_of(2, "mixed")
    wires = [[] for _ in x]
    want = []
    fit = deg = None
    for e in case["exps"]:
        w = {}
        ys = {}
        for l, scale in e:
            y, zero, fit, deg = data(fc, scale)
            ys[gen.qps(l, qs)] = y
            w[gen.qps(l, qs)] = (zero, y)
        want.append(w)
        for i in range(len(x)):
            items = list(ys.items())
            if case["perm"] and i % 2:
                items.reverse()
            wires[i].append(QubitPauliOperator({s: y[i] for s, y in items}))
    t = extrapolation_task_gen(list(x), fit, False, deg)
    (out,) = t(tuple(wires))
    check(len(out) == len(want), "%d extrapolated operators for %d experiments" % (len(out), len(want)))
    for o, w in zip(out, want):
        check(set(o._dict) == set(w), "extrapolated strings %r, expected %r" % (set(o._dict), set(w)))
        for s, (z, y) in w.items():
            check(
                abs(float(o._dict[s]) - z) < tol(fc, y),
                lambda: "extrapolating %r at %r gives %r, expected %r" % (y, x, o._dict[s], z),
            )
    return {"nontrivial": len(want) > 1 or len(case["exps"][0]) > 1, "labels": [fc["kind"]]}


# ---- merging
merge_st = gen.size(1, 4, 13).flatmap(
    lambda n: st.fixed_dictionaries(
        {
            "n": st.just(n),
            "counts": st.lists(st.integers(1, 4), min_size=n, max_size=n),
            "strings": st.lists(
                st.lists(gen.letters_st(2), min_size=1, max_size=3, unique=True), min_size=n, max_size=n
            ),
            "shuffle": st.randoms(use_true_random=False).map(lambda r: r.random()),
            "vals": st.lists(st.integers(-100, 100), min_size=48, max_size=48),
        }
    )
)


def run_merge(case):
    import random

    qs = gen.qubits_of(2, "q")
    items = []
    k = 0
    want = []
    for i in range(case["n"]):
        acc = {}
        for _ in range(case["counts"][i]):
            d = {}
            for l in case["strings"][i]:
                v = case["vals"][k % 48] / 50
                k += 1
                d[gen.qps(l, qs)] = v
                acc[gen.qps(l, qs)] = acc.get(gen.qps(l, qs), 0) + v / case["counts"][i]
            items.append((i, QubitPauliOperator(d)))
        want.append(acc)
    random.Random(case["shuffle"]).shuffle(items)
    keep = [dict(o._dict) for _, o in items]
    (out,) = merge_experiments_task_gen()(([o for _, o in items], [i for i, _ in items]))
    check([dict(o._dict) for _, o in items] == keep, "merging changed the operators merged")
    check(len(out) == len(want), "%d merged, %d experiments" % (len(out), len(want)))
    for i, (o, w) in enumerate(zip(out, want)):
        check(set(o._dict) == set(w), "strings %r, expected %r" % (set(o._dict), set(w)))
        for s in w:
            check(
                abs(complex(o._dict[s]) - w[s]) < 1e-9,
                lambda: "merged value of %s in experiment %d is %r, the mean is %r" % (s, i, o._dict[s], w[s]),
            )
    return {"nontrivial": case["n"] > 1, "labels": ["n%d" % case["n"]]}


# ---- duplication and folding tasks
dup_st = st.fixed_dictionaries(
    {
        "exps": with_twins(gen.some(experiment_st(max_n=2, max_gates=5), 3, empty=False)),
        "k": gen.size(1, 4, 12),
        "shots": st.integers(1, 50),
    }
)


def values(w):
    """symbol values as they would be substituted"""
    syms = list(w.AnsatzCircuit.SymbolsDict.symbols_list)
    c = Circuit(1)
    for s in syms:
        c.Rz(s, 0)
    got = MeasurementCircuit(c, w.AnsatzCircuit.SymbolsDict).get_parametric_circuit()
    return {str(s): repr(cmd.op.params) for s, cmd in zip(syms, got.get_commands())}


def snapshot(w):
    sd = w.AnsatzCircuit.SymbolsDict
    return (
        w.AnsatzCircuit.Circuit.copy(),
        w.AnsatzCircuit.Shots,
        values(w),
        dict(w.ObservableTracker.qubit_pauli_operator._dict),
    )


def run_dup(case):
    pool = []
    wires = [make(e, case["shots"] + i, pool=pool)[0] for i, e in enumerate(case["exps"])]
    keep = [snapshot(w) for w in wires]
    outs = gen_duplication_task(case["k"])(([*wires],))
    check(len(outs) == case["k"], "%d copies for %d" % (len(outs), case["k"]))
    for o in outs:
        check([snapshot(w) for w in o] == keep, "a copy differs from the original experiments")
    # copies are independent
    outs[0][0].AnsatzCircuit.Circuit.X(outs[0][0].AnsatzCircuit.Circuit.qubits[0])
    outs[0][0].ObservableTracker.modify_coefficients(
        [(s, 17.0) for s in outs[0][0].ObservableTracker.qubit_pauli_operator._dict]
    )
    for o in outs[1:]:
        check([snapshot(w) for w in o] == keep, "copies share state")
    check([snapshot(w) for w in wires] == keep, "the original shares state with a copy")
    return {"nontrivial": case["k"] > 1 and len(wires) > 1, "labels": ["k%d" % case["k"]]}


fold_st = st.fixed_dictionaries(
    {
        "exps": with_twins(gen.some(experiment_st(max_n=2, max_gates=5), 3, empty=False)),
        "s": st.sampled_from([1, 3, 5]),
        "f": st.sampled_from(["circuit", "gate", "odd_gate", "noise_aware"]),
        "samples": gen.size(1, 4, 12),
        "shots": st.integers(12, 60),
    }
)


def run_fold(case):
    be = RecordingBackend()
    pool = []
    wires = [make(e, case["shots"] + i, pool=pool)[0] for i, e in enumerate(case["exps"])]
    keep = [snapshot(w) for w in wires]
    kw = {}
    per = 1
    if case["f"] == "noise_aware":
        nm = NoiseModel({OpType.X: ErrorDistribution({(Pauli.X,): 0.1})})
        kw = {"noise_model": nm, "n_noisy_circuit_samples": case["samples"]}
        per = case["samples"]
    out, index = digital_folding_task_gen(be, case["s"], getattr(Folding, case["f"]), True, **kw)(([*wires],))
    check([snapshot(w) for w in wires] == keep, "folding changed the experiments it was given")
    check(list(index) == [i for i in range(len(wires)) for _ in range(per)], "experiment indices %r" % (index,))
    check(len(out) == len(index), "%d folded circuits, %d indices" % (len(out), len(index)))
    for o, i in zip(out, index):
        w = wires[i]
        check(
            o.AnsatzCircuit.Shots == w.AnsatzCircuit.Shots // per,
            "folded circuit gets %d shots, experiment has %d for %d circuits"
            % (o.AnsatzCircuit.Shots, w.AnsatzCircuit.Shots, per),
        )
        check(
            dict(o.ObservableTracker.qubit_pauli_operator._dict) == keep[i][3],
            "folded experiment measures %r" % (o.ObservableTracker.qubit_pauli_operator,),
        )
        check(
            {str(k) for k in o.AnsatzCircuit.SymbolsDict.symbols_list}
            == {str(k) for k in w.AnsatzCircuit.SymbolsDict.symbols_list},
            "symbols lost by folding",
        )
        a, b = o.AnsatzCircuit.Circuit.copy(), w.AnsatzCircuit.Circuit.copy()
        for c in (a, b):
            c.symbol_substitution({s: 0.37 for s in c.free_symbols()})
        if case["f"] != "noise_aware" or case["s"] == 1:
            check(
                refsim.equal_up_to_phase(refsim.unitary(a, b.qubits), refsim.unitary(b, b.qubits)),
                "folded circuit of experiment %d is not equivalent to it" % i,
            )
    return {"nontrivial": len(wires) > 1, "labels": [case["f"]]}


PARTS = [
    Part("fit", fit_case(), run_fit, quick=2000, thorough=30000, shards=8),
    Part("refuse", refuse_case, run_refuse, quick=1000, thorough=10000),
    Part("least_squares", lsq_case, run_lsq, quick=600, thorough=8000, shards=2),
    Part("task", task_case(), run_task, quick=600, thorough=8000),
    Part("merge", merge_st, run_merge, quick=600, thorough=8000),
    Part("duplicate", dup_st, run_dup, quick=300, thorough=4000),
    Part("fold", fold_st, run_fold, quick=300, thorough=4000),
]
