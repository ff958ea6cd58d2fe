"""Choice of Pauli checks."""

from itertools import combinations, product
from math import sqrt

from hypothesis import strategies as st
from lib import gen
from lib.pbt import Part, check
from numpy.random import default_rng
from pytket import OpType
from pytket.pauli import Pauli
from qermit.coherent_pauli_checks import (
    DeterministicXPauliSampler,
    DeterministicZPauliSampler,
    OptimalPauliSampler,
    RandomPauliSampler,
)
from qermit.noise_model import NoiseModel
from qermit.noise_model.noise_model import ErrorDistribution, LogicalErrorDistribution
from qermit.noise_model.qermit_pauli import QermitPauli
from pytket.pauli import QubitPauliString, QubitPauliTensor

PROPERTY = "C28"
RULE = (
    "A case is a Clifford circuit on 1-3 qubits (random checks: up to 8) of any name, a number of checks and an error distribution (as sampled from a noise model, certain, or given "
    "directly with arbitrary weights, identity included); the choice is compared with all possible choices. Random checks: support, count and frequencies "
    "(7 sigma). Non-trivial: different choices leave different amounts of error undetected."
)


def letters(p, qs):
    t = p.qubit_pauli_tensor
    check(t.coeff == 1, "check %s has phase %r" % (p, t.coeff))
    check(all(q in qs or l == Pauli.I for q, l in t.string.map.items()), "check %s is not on %r" % (p, qs))
    return "".join(t.string.map[q].name if q in t.string.map else "I" for q in qs)


def anti(a, b):
    return sum(x != "I" and y != "I" and x != y for x, y in zip(a, b)) % 2 == 1


class Spy(NoiseModel):
    """a noise model which remembers, or is told, the error distribution it gives"""

    told = None

    def get_effective_pre_error_distribution(self, *a, **k):
        self.args = (a, k)
        if self.told is not None:
            self.got = self.told
        else:
            k = dict(k)
            k.setdefault("n_rand", 60)
            self.got = super().get_effective_pre_error_distribution(*a, **k)
        return self.got


@st.composite
def opt_st(draw):
    n = draw(st.sampled_from([1, 2, 2, 2, 3]))
    k = draw(st.integers(1, {1: 3, 2: 2, 3: 1}[n]))
    return {
        "n": n,
        "k": k,
        "names": draw(st.sampled_from(gen.NAMES)),
        "gates": draw(gen.gates(n, 6, 1, ones=["H", "S", "X", "V"], twos=["CX", "CZ"])),
        "told": draw(st.one_of(st.none(), st.lists(st.tuples(gen.letters_st(n), st.integers(1, 40)), min_size=1, max_size=6, unique_by=lambda t: t[0]))),
        "slack": draw(st.one_of(st.integers(0, 30), st.sampled_from([300, 5000, 10**5, 10**7]))),
        "model": [
            [g, draw(gen.letters_st(2 if g in ("CX", "CZ") else 1, 1)), draw(st.sampled_from([0.2, 0.5, 1.0]))]
            for g in draw(st.lists(st.sampled_from(["CX", "CZ", "H", "S"]), min_size=1, max_size=3, unique=True))
        ],
    }


def run_opt(case):
    n = case["n"]
    c = gen.build(case)
    keep = c.copy()
    qs = list(c.qubits)
    nm = Spy({OpType.from_name(g): ErrorDistribution({tuple(gen.P[x] for x in l): p}) for g, l, p in case["model"]})
    if case["told"] is not None:
        tot = sum(w for _, w in case["told"]) + case["slack"]

        def mkp(l):
            return QermitPauli(QubitPauliTensor(string=QubitPauliString({q: gen.P[x] for q, x in zip(qs, l)}), coeff=1))

        from collections import Counter

        nm.told = LogicalErrorDistribution(Counter({mkp(l): w for l, w in case["told"]}), total=tot)
        want_told = {l: w / tot for l, w in case["told"]}
    sel = OptimalPauliSampler(noise_model=nm, n_checks=case["k"]).sample(circ=c)
    check(c == keep, "sampling checks changed the circuit")
    check(len(sel) == case["k"], "%d checks sampled, %d requested" % (len(sel), case["k"]))
    ls = [letters(p, qs) for p in sel]
    check(all(set(l) != {"I"} for l in ls), "identity sampled as a check: %r" % ls)
    check(len(set(ls)) == len(ls), "the same check twice: %r" % ls)
    dist = {}
    for e, pr in nm.got.distribution.items():
        t = e.map
        l = "".join(t[q].name if q in t else "I" for q in qs)
        dist[l] = dist.get(l, 0) + pr
    if case["told"] is not None:
        check(
            set(dist) == set(want_told) and all(abs(dist[l] - want_told[l]) < 1e-9 for l in dist),
            "distribution %r, errors counted were %r" % (dist, want_told),
        )

    def left(choice):
        return sum(p for l, p in dist.items() if not any(anti(l, x) for x in choice))

    alls = ["".join(x) for x in product("IXYZ", repeat=n) if set(x) != {"I"}]
    vals = [left(x) for x in combinations(alls, case["k"])]
    check(
        left(ls) <= min(vals) + 1e-12,
        lambda: "checks %r leave errors with probability %.4g undetected, %.4g is possible (errors %r)" % (ls, left(ls), min(vals), dist),
    )
    return {"nontrivial": max(vals) - min(vals) > 1e-10, "labels": ["n%d k%d" % (n, case["k"])]}


rnd_st = st.fixed_dictionaries(
    {
        "n": st.integers(1, 2),
        "names": st.sampled_from(gen.NAMES),
        "k": st.integers(0, 4),
        "seed": st.integers(0, 10**6),
        "gates": st.just([["H", [0], []]]),
    }
)


def run_rnd(case):
    n = case["n"]
    c = gen.build(case)
    qs = list(c.qubits)
    s1 = RandomPauliSampler(case["k"], rng=default_rng(case["seed"]))
    s2 = RandomPauliSampler(n_checks=case["k"], rng=default_rng(case["seed"]))
    a = [letters(p, qs) for p in s1.sample(circ=c)]
    b = [letters(p, qs) for p in s2.sample(circ=c)]
    check(a == b, "the same generator gives checks %r and %r" % (a, b))
    check(len(a) == case["k"], "%d checks sampled, %d requested" % (len(a), case["k"]))
    check(all(set(l) != {"I"} for l in a), "identity sampled as a check: %r" % a)
    N = 1500
    cnt = {}
    s = RandomPauliSampler(N, rng=default_rng(case["seed"] + 1))
    ls = [letters(p, qs) for p in s.sample(circ=c)]
    check(len(ls) == N and all(set(l) != {"I"} for l in ls), "identity or missing check among %d" % N)
    for l in ls:
        cnt[l] = cnt.get(l, 0) + 1
    p = 1 / (4**n - 1)
    for x in product("IXYZ", repeat=n):
        x = "".join(x)
        if set(x) == {"I"}:
            continue
        check(
            abs(cnt.get(x, 0) - N * p) < 7 * sqrt(N * p * (1 - p)),
            "check %s sampled %d times of %d" % (x, cnt.get(x, 0), N),
        )
    for cls, l in ((DeterministicXPauliSampler, "X"), (DeterministicZPauliSampler, "Z")):
        d = [letters(p, qs) for p in cls().sample(circ=c)]
        check(d == [l * n], "%s gives %r" % (cls.__name__, d))
    return {"nontrivial": True, "labels": ["k%d" % case["k"]]}


rnd_large_st = st.fixed_dictionaries(
    {
        "n": st.integers(3, 8),
        "names": st.sampled_from(gen.NAMES),
        "k": st.integers(1, 400),
        "seed": st.integers(0, 10**6),
        "gates": st.just([["H", [0], []]]),
    }
)


def run_rnd_large(case):
    """wider circuits: letters at each qubit, and at each pair of qubits, appear as often as uniformly chosen non-identity Paulis have them"""
    n, k = case["n"], case["k"]
    c = gen.build(case)
    qs = list(c.qubits)
    ls = [letters(p, qs) for p in RandomPauliSampler(k, rng=default_rng(case["seed"])).sample(circ=c)]
    check(len(ls) == k, "%d checks sampled, %d requested" % (len(ls), k))
    N = 1500
    ls = [letters(p, qs) for p in RandomPauliSampler(N, rng=default_rng(case["seed"] + 1)).sample(circ=c)]
    check(len(ls) == N and all(set(l) != {"I"} for l in ls), "identity or missing check among %d" % N)
    tot = 4**n - 1
    for w in (1, 2):
        for at in combinations(range(n), w):
            cnt = {}
            for l in ls:
                t = "".join(l[i] for i in at)
                cnt[t] = cnt.get(t, 0) + 1
            for x in product("IXYZ", repeat=w):
                x = "".join(x)
                p = (4 ** (n - w) - (set(x) == {"I"})) / tot
                check(
                    abs(cnt.get(x, 0) - N * p) < 7 * sqrt(N * p * (1 - p)),
                    "%d random checks on %d qubits: %s at %r %d times" % (N, n, x, at, cnt.get(x, 0)),
                )
    for cls, l in ((DeterministicXPauliSampler, "X"), (DeterministicZPauliSampler, "Z")):
        d = [letters(p, qs) for p in cls().sample(circ=c)]
        check(d == [l * n], "%s gives %r" % (cls.__name__, d))
    return {"nontrivial": True, "labels": ["n%d" % n]}


PARTS = [
    Part("random wide", rnd_large_st, run_rnd_large, quick=40, thorough=800, shards=8),
    Part("optimal", opt_st(), run_opt, quick=600, thorough=16000, shards=8),
    Part("random", rnd_st, run_rnd, quick=60, thorough=1500, shards=8),
]
