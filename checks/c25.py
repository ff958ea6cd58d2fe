"""Spectral filtering."""

import itertools
import zlib

import numpy as np
from checks import exps
from checks.exps import exact_values, fake_mitex
from hypothesis import strategies as st
from lib import gen
from lib.backends import RecordingBackend
from lib.pbt import Part, Skip, check
from pytket import Circuit
from pytket.utils import QubitPauliOperator
from qermit import AnsatzCircuit, ObservableExperiment, ObservableTracker, SymbolsDict
from qermit.spectral_filtering import SmallCoefficientSignalFilter, gen_spectral_filtering_MitEx
from qermit.spectral_filtering.signal_filter import SignalFilter
from qermit.spectral_filtering.spectral_filtering import (
    gen_fft_task,
    gen_flatten_task,
    gen_inv_fft_task,
    gen_mitigation_task,
    gen_ndarray_to_dict_task,
    gen_obs_exp_grid_gen_task,
    gen_param_grid_gen_task,
    gen_reshape_task,
    gen_result_extraction_task,
)
from sympy import Symbol

PROPERTY = "C25"
RULE = (
    "A case is a list of experiments with one to three symbols sent through the whole mitigation on a device returning exact or arbitrary values for every grid point, with "
    "a threshold, another or no filter (compared with an explicit sum over frequencies and explicit multilinear interpolation), or grids of experiments, values and spectra "
    "taken through the single tasks. Non-trivial: some but not all frequencies are filtered or the filter is trivial, and the value is not constant over the grid."
)
TECHNIQUE = "property-based testing (Hypothesis): differential testing against an explicit Fourier sum and interpolation; exhaustive check of the grid points executed"


# ---------------------------------------------------------------- reference
def dft(a, sign):
    """explicit Fourier sum along every axis"""
    a = np.asarray(a, dtype=complex)
    for ax, n in enumerate(a.shape):
        m = np.exp(sign * 2j * np.pi * np.outer(np.arange(n), np.arange(n)) / n)
        a = np.moveaxis(np.tensordot(m, a, axes=(1, ax)), 0, ax)
    return a


def ref_filter(kind, tol, spec):
    out = spec.copy()
    if kind == "small":
        out[np.abs(spec) < tol] = 0
    elif kind == "zero":
        out.flat[0] = 0
    elif kind == "halve":
        out = out / 2
    return out


def interp(points, grid, x):
    total = 0
    opts = []
    for p, v in zip(points, x):
        i = min(max(int(np.searchsorted(p, v, side="right")) - 1, 0), len(p) - 2)
        f = (v - p[i]) / (p[i + 1] - p[i])
        opts.append([(i, 1 - f), (i + 1, f)])
    for combo in itertools.product(*opts):
        w = 1.0
        for _, f in combo:
            w *= f
        if w:
            total += w * grid[tuple(i for i, _ in combo)]
    return total


class ZeroMean(SignalFilter):
    def filter(self, g):
        g = g.copy()
        g.flat[0] = 0
        return g


class Halve(SignalFilter):
    def filter(self, g):
        return g / 2


def make_filter(kind, tol):
    return {"small": lambda: SmallCoefficientSignalFilter(tol=tol), "zero": ZeroMean, "halve": Halve}[kind]()


# ---------------------------------------------------------------- experiments
def exp_st(max_n=2, max_syms=3):
    return st.tuples(st.integers(1, max_n), st.integers(1, max_syms)).flatmap(
        lambda t: st.fixed_dictionaries(
            {
                "n": st.just(t[0]),
                "names": st.sampled_from(gen.NAMES),
                # symbols in an order of their own
                "order": st.permutations(range(t[1])),
                "ops": st.lists(
                    st.one_of(
                        st.tuples(st.just("g"), gen.gate(t[0])),
                        st.tuples(st.just("s"), st.sampled_from(["Rz", "Rx", "Ry"]), st.integers(0, t[0] - 1), st.integers(0, t[1] - 1), st.sampled_from([1, 1, -1, 2])),
                        st.tuples(st.just("s"), st.sampled_from(["Rx", "Ry"]), st.integers(0, t[0] - 1), st.integers(0, t[1] - 1), st.sampled_from([1, 1])),
                    ),
                    max_size=6,
                ),
                # one more rotation per symbol so that every symbol matters
                "own": st.lists(st.tuples(st.sampled_from(["Rx", "Ry"]), st.integers(0, t[0] - 1)), min_size=t[1], max_size=t[1]),
                "at": st.lists(st.fractions(0, 1, max_denominator=24), min_size=t[1], max_size=t[1]).map(lambda l: [float(x) for x in l]),
                "terms": gen.operator_st(t[0], 1, 3, 0),
                "keep_i": st.booleans(),
            }
        )
    )


def build(d, shots, n_vals):
    c = Circuit(name="circuit") if d["names"] != "q" else Circuit()
    qs = gen.qubits_of(d["n"], d["names"])
    for q in qs:
        c.add_qubit(q)
    syms = [Symbol("s%d" % i) for i in range(len(d["order"]))]
    for op in d["ops"]:
        if op[0] == "g":
            gen.add(c, op[1], qs)
        else:
            gen.add(c, [op[1], [op[2]], [op[4] * syms[op[3]]]], qs)
    for s, (name, q) in zip(syms, d["own"]):
        gen.add(c, [name, [q], [s]], qs)
    # values within the grid, which ends before 2
    last = float(np.linspace(0, 2, n_vals + 1)[-2]) * (1 - 1e-15)
    values = {syms[i]: d["at"][i] * last for i in d["order"]}
    op = QubitPauliOperator({gen.qps(l, qs, keep_identity=d["keep_i"]): co for l, co in d["terms"]})
    return ObservableExperiment(AnsatzCircuit(c, shots, SymbolsDict.symbols_from_dict(values)), ObservableTracker(op))


def snapshot(e):
    return (
        e.AnsatzCircuit.Circuit.to_dict(),
        e.AnsatzCircuit.Shots,
        list(e.AnsatzCircuit.SymbolsDict._symbolic_map.items()),
        dict(e.ObservableTracker.qubit_pauli_operator._dict),
        len(e.ObservableTracker.measurement_circuits),
    )


def wobble(case, j, point, s):
    """an arbitrary deterministic value for a grid point"""
    h = zlib.crc32(repr((case["salt"], j, tuple(round(p * 24) for p in point), tuple(sorted((repr(q), p.value) for q, p in s.map.items())))).encode())
    return ((h % 1000) / 500 - 1) * case["noise"]


def run_e2e(case):
    n_vals = case["n_vals"]
    es = [build(e, 10**9 + i, n_vals) for i, e in enumerate(case["exps"])]
    if sum(n_vals ** len(e["order"]) for e in case["exps"]) > 260:
        raise Skip("large grid")
    before = [snapshot(e) for e in es]
    log = []

    def value(e):
        j = e.AnsatzCircuit.Shots - 10**9
        m = e.AnsatzCircuit.SymbolsDict._symbolic_map
        pt = [float(m[s]) for s in es[j].AnsatzCircuit.SymbolsDict._symbolic_map]
        return {s: v + wobble(case, j, pt, s) for s, v in exact_values(e).items()}

    def fn(k, e):
        log.append(e)
        return value(e)

    # nothing but compiled circuits runs on the device
    backend = RecordingBackend(compile_kind=["plain", "flatten", "routed"][(n_vals + len(es)) % 3], strict=True)
    kw = {}
    tol = case["tol"]
    kind = case["filter"]
    if kind == "default":
        kind, tol = "small", 5
    else:
        kw["signal_filter"] = make_filter(kind, tol)
    fake = case["device"] == "fake"
    if fake:
        kw["experiment_mitex"] = fake_mitex(fn)
    elif case["device"] == "mitres":
        from qermit.taskgraph.mitex import gen_compiled_MitRes

        kw["experiment_mitres"] = gen_compiled_MitRes(backend)
    elif case["level"]:
        kw["optimisation_level"] = case["level"]
    mit = gen_spectral_filtering_MitEx(backend, n_vals, **kw)
    res = mit.run(list(es))
    check([snapshot(e) for e in es] == before, "the experiments given were changed")
    if fake:
        # every grid point of every experiment once
        axis = np.linspace(0, 2, n_vals + 1)[:-1]
        left = {(j, pt) for j, e in enumerate(es) for pt in itertools.product(range(n_vals), repeat=len(before[j][2]))}
        for e in log:
            j = e.AnsatzCircuit.Shots - 10**9
            check(0 <= j < len(es), "shots of a grid point: %d" % e.AnsatzCircuit.Shots)
            m = e.AnsatzCircuit.SymbolsDict._symbolic_map
            check(set(m) == {s for s, _ in before[j][2]}, "symbols of a grid point")
            pt = tuple(int(np.argmin(abs(axis - float(m[s])))) for s, _ in before[j][2])
            check(all(abs(axis[i] - float(m[s])) < 1e-9 for i, (s, _) in zip(pt, before[j][2])), "symbol values %r are not a grid point" % m)
            check((j, pt) in left, "grid point %r of experiment %d is executed twice" % (pt, j))
            left.discard((j, pt))
            check(e.AnsatzCircuit.Circuit.to_dict() == before[j][0], "circuit of a grid point")
            check(dict(e.ObservableTracker.qubit_pauli_operator._dict) == before[j][3], "operator of a grid point")
        check(not left, "grid points are not executed: %r" % sorted(left)[:5])
    check(len(res) == len(es), "%d results for %d experiments" % (len(res), len(es)))
    nt = False
    labels = {case["device"]}
    points = np.linspace(0, 2, n_vals + 1)[:-1]
    for j, (e, r) in enumerate(zip(es, res)):
        syms = [s for s, _ in before[j][2]]
        at = [float(v) for _, v in before[j][2]]
        check(set(r._dict) == set(before[j][3]), "strings of result %d" % j)
        grids = {s: np.zeros([n_vals] * len(syms)) for s in before[j][3]}
        for pt in itertools.product(range(n_vals), repeat=len(syms)):
            sd = SymbolsDict.symbols_from_dict({s: float(points[i]) for s, i in zip(syms, pt)})
            x = ObservableExperiment(AnsatzCircuit(e.AnsatzCircuit.Circuit.copy(), 10**9 + j, sd), ObservableTracker(QubitPauliOperator(dict(before[j][3]))))
            for s, v in (value(x) if fake else exact_values(x)).items():
                grids[s][pt] = v
        for s, g in grids.items():
            spec = dft(g, -1)
            if kind == "small" and np.any(np.abs(np.abs(spec) - tol) < (1e-6 if fake else 1e-4)):
                labels.add("at threshold")
                continue
            f = ref_filter(kind, tol, spec)
            back = dft(f, 1) / g.size
            want = interp([points] * len(syms), back, at)
            got = complex(r._dict[s])
            check(
                abs(got - want) < (1e-6 if fake else 1e-5),
                lambda: "experiment %d <%s> = %r, filtering and interpolating the values on the grid gives %r" % (j, s, got, want),
            )
            kept = np.count_nonzero(np.abs(f) > 1e-9)
            nt |= np.ptp(g) > 1e-3 and (kind != "small" or tol == 0 or 0 < kept < np.count_nonzero(np.abs(spec) > 1e-9))
    if case["again"]:
        res2 = mit.run(list(es))
        for a, b in zip(res, res2):
            check(all(abs(complex(a._dict[s]) - complex(b._dict[s])) < (1e-9 if fake else 1e-5) for s in a._dict), "a second run gives another result")
    return {"nontrivial": bool(nt), "labels": sorted(labels)}


# number of values per symbol from .. to, experiments, symbols
e2e_st = st.sampled_from([[2, 7, 2, 3]] * 9 + [[8, 15, 1, 2], [12, 31, 2, 1], [2, 3, 5, 2], [2, 3, 1, 5]]).flatmap(
    lambda t: st.fixed_dictionaries(
        {
            "exps": gen.some(exp_st(max_syms=t[3]), t[2]),
            "n_vals": st.integers(t[0], t[1]),
            "filter": st.sampled_from(["small", "small", "small", "default", "zero", "halve"]),
            "tol": st.sampled_from([0, 0.0625, 0.3, 1, 2.5, 4.1, 7.3, 1000]),
            "noise": st.sampled_from([0, 0.1, 0.5]),
            "salt": st.integers(0, 10**6),
            "device": st.sampled_from(["fake", "fake", "fake", "real", "mitres"]),
            "level": st.integers(0, 1),
            "again": st.booleans(),
        }
    )
)


# ---------------------------------------------------------------- tasks
def run_tasks(case):
    rs = np.random.RandomState(case["seed"])
    es = [build(e, 10**9 + i, 3) for i, e in enumerate(case["exps"])]
    before = [snapshot(e) for e in es]
    axes = [
        [np.cumsum(rs.randint(1, 9, rs.randint(2, 4))) / 16.0 for _ in b[2]]  # different lengths and spacings
        for b in before
    ]
    (meshes,) = gen_param_grid_gen_task()(([[list(map(float, a)) for a in ax] for ax in axes],))
    (grids,) = gen_obs_exp_grid_gen_task()((es, meshes))
    check(len(grids) == len(es), "number of grids")
    for g, ax, b in zip(grids, axes, before):
        check(g.shape == tuple(map(len, ax)), "shape of a grid")
        trackers = set()
        for pt in itertools.product(*[range(len(a)) for a in ax]):
            e = g[pt]
            want = [(s, a[i]) for (s, _), a, i in zip(b[2], ax, pt)]
            snap = snapshot(e)
            check(snap[:2] == b[:2] and snap[3:] == b[3:], "circuit, shots or operator of a grid point")
            check([(s, float(v)) for s, v in snap[2]] == [(s, float(v)) for s, v in want], "symbols of grid point %r: %r, expected %r" % (pt, snap[2], want))
            trackers.add(id(e.ObservableTracker))
    flat, lengths, shapes = gen_flatten_task()((grids,))
    check(len(flat) == sum(g.size for g in grids), "flattened grid")
    # each experiment is executed and marked by its symbols
    qp = [list(b[3]) for b in before]
    tag = {}
    results = []
    for k, e in enumerate(flat):
        j = e.AnsatzCircuit.Shots - 10**9
        pt = tuple(float(v) for v in e.AnsatzCircuit.SymbolsDict._symbolic_map.values())
        vals = {s: float(v) for s, v in zip(qp[j], rs.randint(-16, 17, len(qp[j])) / 16.0)}
        tag[(j, pt)] = vals
        results.append(QubitPauliOperator({s: vals[s] for s in (qp[j] if k % 2 else qp[j][::-1])}))
    (rg,) = gen_reshape_task()((results, lengths, shapes))
    (rd,) = gen_ndarray_to_dict_task()((rg,))
    check(len(rd) == len(es), "results per experiment")
    value = [{s: np.zeros([len(a) for a in ax]) for s in q} for ax, q in zip(axes, qp)]
    for j, (d, ax) in enumerate(zip(rd, axes)):
        check(set(d) == set(qp[j]), "strings of a grid of results")
        for pt in itertools.product(*[range(len(a)) for a in ax]):
            for s in qp[j]:
                value[j][s][pt] = tag[(j, tuple(float(a[i]) for a, i in zip(ax, pt)))][s]
                check(complex(d[s][pt]) == value[j][s][pt], "result of grid point %r of experiment %d" % (pt, j))
    keep = [{s: np.array(g) for s, g in d.items()} for d in rd]
    (sp,) = gen_fft_task()((rd,))
    filt = make_filter(case["filter"], case["tol"])
    kept = [{s: np.array(g) for s, g in d.items()} for d in sp]
    (fl,) = gen_mitigation_task(filt)((sp,))
    check(all(np.array_equal(kept[j][s], sp[j][s]) for j in range(len(es)) for s in qp[j]), "filtering changes the spectrum given")
    (iv,) = gen_inv_fft_task()((fl,))
    check(all(np.array_equal(keep[j][s], rd[j][s]) for j in range(len(es)) for s in qp[j]), "the grid given was changed")
    pe = []
    for b, ax, e in zip(before, axes, es):
        at = {s: float(a[0] + rs.randint(0, 17) / 16.0 * (a[-1] - a[0])) for (s, _), a in zip(b[2], ax)}
        pe.append(ObservableExperiment(AnsatzCircuit(e.AnsatzCircuit.Circuit, 1, SymbolsDict.symbols_from_dict(at)), ObservableTracker(QubitPauliOperator(dict(b[3])))))
    b2 = [snapshot(e) for e in pe]
    (out,) = gen_result_extraction_task()((iv, pe, [[list(map(float, a)) for a in ax] for ax in axes]))
    check([snapshot(e) for e in pe] == b2, "extracting results changed the experiments")
    check([snapshot(e) for e in es] == before, "the experiments given were changed")
    nt = False
    for j, (o, ax) in enumerate(zip(out, axes)):
        check(set(o._dict) == set(qp[j]), "strings of a result")
        at = [float(v) for _, v in b2[j][2]]
        for s in qp[j]:
            spec = dft(value[j][s], -1)
            check(np.allclose(sp[j][s], spec, atol=1e-9), "spectrum")
            if case["filter"] == "small" and np.any(np.abs(np.abs(spec) - case["tol"]) < 1e-9):
                continue
            f = ref_filter(case["filter"], case["tol"], spec)
            check(np.allclose(fl[j][s], f, atol=1e-9), "filtered spectrum %r, expected %r" % (fl[j][s], f))
            want = interp(ax, dft(f, 1) / f.size, at)
            check(abs(complex(o._dict[s]) - want) < 1e-9, lambda: "interpolated value %r, expected %r" % (o._dict[s], want))
            nt |= abs(want) > 1e-6
    if case["mismatch"]:
        j = case["seed"] % len(es)
        bad = [dict(d) for d in iv]
        bad[j].pop(qp[j][0])
        try:
            gen_result_extraction_task()((bad, pe, axes))
        except Exception:
            pass
        else:
            check(False, "results lacking a string are accepted")
    return {"nontrivial": bool(nt), "labels": [case["filter"]]}


tasks_st = st.fixed_dictionaries(
    {
        "exps": st.one_of([st.lists(exp_st(), min_size=1, max_size=3)] * 6 + [st.lists(exp_st(), min_size=4, max_size=6), st.lists(exp_st(max_syms=5), min_size=1, max_size=1)]),
        "filter": st.sampled_from(["small", "small", "zero", "halve"]),
        "tol": st.sampled_from([0, 0.0625, 0.3, 1, 2.5]),
        "seed": st.integers(0, 2**32 - 1),
        "mismatch": st.booleans(),
    }
)

PARTS = [
    Part("tasks", tasks_st, run_tasks, quick=300, thorough=10000),
    Part("e2e", e2e_st, run_e2e, quick=160, thorough=4000),
]
