"""Error distributions and noise models."""

import json
from itertools import product
from math import sqrt

import numpy as np
from hypothesis import strategies as st
from lib import gen, refsim
from lib.pbt import Part, check
from pytket import OpType
from pytket.pauli import Pauli
from qermit.noise_model import NoiseModel
from qermit.noise_model.noise_model import ErrorDistribution

PROPERTY = "C12"
RULE = (
    "A case is a Pauli error distribution on 1-3 qubits (part wide: 4) with 0-8, rarely up to 60, errors (rates down to 1e-7, zero rates, an explicit identity entry, total up to 1) and "
    "scaling factors; PTMs are compared with 4^n sums of signs, scaling with channel composition computed on the dense channel, sampling with exact "
    "rates (7 sigma), serialisation with equality. Non-trivial: at least two errors."
)
LETTER = {"I": Pauli.I, "X": Pauli.X, "Y": Pauli.Y, "Z": Pauli.Z}
NAME = {v: k for k, v in LETTER.items()}


def anti(a, b):
    return sum(x != "I" and y != "I" and x != y for x, y in zip(a, b)) % 2


def strings(n):
    return ["".join(t) for t in product("IXYZ", repeat=n)]


@st.composite
def dist_st(draw, max_n=3, max_total=100, small=True, n=None, ident=True):
    n = n or draw(st.integers(1, max_n))
    ls = draw(
        st.lists(gen.letters_st(n, 0 if ident else 1), min_size=1, max_size=8, unique=True)
    )
    if n == 3 and draw(st.integers(0, 2)) == 0:
        # many errors
        more = draw(st.permutations(strings(3)[0 if ident else 1 :]))[: draw(st.integers(9, 60))]
        ls = ls + [x for x in more if x not in ls]
    ws = draw(st.lists(st.sampled_from([0, 1, 1, 2, 3, 5, 10, 30]), min_size=len(ls), max_size=len(ls)))
    if sum(ws) == 0:
        ws[0] = 1
    total = draw(st.integers(1, max_total)) / 100
    if small and draw(st.integers(0, 4)) == 0:
        total = total / draw(st.sampled_from([1e3, 1e5, 1e6]))
    return {"n": n, "d": [[l, total * w / sum(ws)] for l, w in zip(ls, ws)]}


def mk(d):
    return ErrorDistribution({tuple(LETTER[c] for c in l): p for l, p in d["d"]})


def rates(d, n):
    """exact rate of every string, identity completed"""
    r = {s: 0.0 for s in strings(n)}
    for l, p in d["d"]:
        r[l] += p
    r["I" * n] += 1 - sum(p for _, p in d["d"])
    return r


def diag(r):
    ss = list(r)
    return {s: sum(p * (-1) ** anti(s, e) for e, p in r.items()) for s in ss}


def from_diag(dg, n):
    ss = strings(n)
    return {e: sum(v * (-1) ** anti(s, e) for s, v in dg.items()) / 4**n for e in ss}


def got_rates(ed, n):
    r = {s: 0.0 for s in strings(n)}
    for e, p in ed.distribution.items():
        check(len(e) == n, "error %r on %d qubits" % (e, n))
        r["".join(NAME[x] for x in e)] += float(np.real(p))
    r["I" * n] += 1 - sum(float(np.real(p)) for p in ed.distribution.values())
    return r


def close(a, b, tol, what):
    for s in set(a) | set(b):
        check(
            abs(a.get(s, 0) - b.get(s, 0)) < tol,
            lambda: "%s: %s has %r, expected %r" % (what, s, a.get(s, 0), b.get(s, 0)),
        )


def run_ptm(case):
    n, ed = case["n"], mk(case)
    keep = dict(ed.distribution)
    ptm, index = ed.to_ptm()
    check(dict(ed.distribution) == keep, "to_ptm changed the distribution")
    check(ptm.shape == (4**n, 4**n), "PTM of shape %r" % (ptm.shape,))
    check(
        sorted(index.values()) == list(range(4**n))
        and {"".join(NAME[x] for x in k) for k in index} == set(strings(n)),
        "Pauli index %r" % index,
    )
    check(np.allclose(ptm, np.diag(np.diag(ptm))), "PTM is not diagonal")
    want = diag(rates(case, n))
    close({"".join(NAME[x] for x in k): ptm[i][i] for k, i in index.items()}, want, 1e-9, "PTM diagonal")
    back = ErrorDistribution.from_ptm(ptm, index)
    close(got_rates(back, n), rates(case, n), 2e-6 * 4**n, "rates recovered from the PTM")
    check(
        abs(ed.identity_error_rate - (1 - sum(p for _, p in case["d"]))) < 1e-9,
        "identity rate %r" % ed.identity_error_rate,
    )
    check(
        abs(back.identity_error_rate - rates(case, n)["I" * n]) < 2e-6 * 4**n,
        lambda: "the rate of no error recovered from the PTM is %r, expected %r"
        % (back.identity_error_rate, rates(case, n)["I" * n]),
    )
    if n == 4:
        # each conversion takes seconds
        return {"nontrivial": len(case["d"]) > 1, "labels": ["n4"]}
    # any order of the rows
    perm = np.random.permutation(4**n)
    ptm2 = np.diag(np.diag(ptm)[perm])
    index2 = {k: int(np.where(perm == i)[0][0]) for k, i in index.items()}
    close(
        got_rates(ErrorDistribution.from_ptm(ptm2, index2), n),
        rates(case, n),
        2e-6 * 4**n,
        "rates recovered from a reordered PTM",
    )
    return {"nontrivial": len(case["d"]) > 1, "labels": ["n%d" % n]}


scale_st = st.fixed_dictionaries(
    {
        "d": dist_st(2, 30),
        "k": st.sampled_from([0, 1, 2, 3, 4, 0.5, 1.5, 0.25, 2.7]),
        "m": st.sampled_from([1, 2, 0.5]),
        "op": st.sampled_from(["ZZMax", "H"]),
    }
)


def run_scale(case):
    d, k = case["d"], case["k"]
    n, ed = d["n"], mk(d)
    keep = dict(ed.distribution)
    dg = diag(rates(d, n))
    want = from_diag({s: v**k for s, v in dg.items()}, n)
    # fractional powers of a channel need not be a Pauli channel
    if min(want.values()) < -1e-9:
        return {"nontrivial": False, "labels": ["not a channel"]}
    out = ed.scale(k)
    check(dict(ed.distribution) == keep, "scale changed the distribution it was called on")
    tol = 2e-6 * 4**n
    close(got_rates(out, n), want, tol, "rates scaled by %r" % k)
    twice = from_diag({s: v ** (k * case["m"]) for s, v in dg.items()}, n)
    if min(twice.values()) > -1e-9:
        close(
            got_rates(out.scale(case["m"]), n),
            twice,
            2 * tol * (1 + case["m"]) + (1e-3 if case["m"] < 1 else 0),
            "rates scaled by %r and then by %r" % (k, case["m"]),
        )
    none = ErrorDistribution({}).scale(k)
    check(none.distribution == {} and none.sample() is None, "scaled noiseless distribution is %r" % none.distribution)
    if k == 1:
        close(got_rates(out, n), rates(d, n), tol, "scaling by one")
    # integer scaling is repetition of the channel
    if k in (2, 3) and n == 1:
        r = rates(d, n)
        acc = {"I" * n: 1.0}
        for _ in range(k):
            new = {}
            for a, p in acc.items():
                for b, q in r.items():
                    c = mult(a, b)
                    new[c] = new.get(c, 0) + p * q
            acc = new
        close(got_rates(out, n), acc, tol, "channel repeated %d times" % k)
    nm = NoiseModel({OpType[case["op"]] if hasattr(OpType, "__getitem__") else OpType.from_name(case["op"]): ed, OpType.X: mk(d)})
    sc = nm.scale(k)
    check(set(sc.noisy_gates) == set(nm.noisy_gates), "scaled model has gates %r" % (sc.noisy_gates,))
    for g in sc.noisy_gates:
        close(got_rates(sc.get_error_distribution(g), n), want, tol, "noise model scaled by %r, %s" % (k, g))
    return {"nontrivial": len(d["d"]) > 1 and k not in (0, 1), "labels": ["k%s" % k]}


def mult(a, b):
    out = ""
    for x, y in zip(a, b):
        if x == y:
            out += "I"
        elif x == "I":
            out += y
        elif y == "I":
            out += x
        else:
            out += ({"X", "Y", "Z"} - {x, y}).pop()
    return out


# ---- serialisation, mixtures, order, equality
multi_st = st.fixed_dictionaries(
    {
        "ds": st.integers(1, 3).flatmap(lambda n: gen.some(dist_st(n=n), 4, empty=False, top=14)),
        "ops": st.permutations(["CX", "ZZMax", "H", "Rz", "X", "CZ", "S", "Z", "Y", "TK1", "TK2", "SWAP", "V", "CY", "CH"]),
        "seed": st.integers(0, 10**6),
        "rev": st.booleans(),
    }
)


def run_multi(case):
    ds = case["ds"]
    eds = [mk(d) for d in ds]
    n = ds[0]["n"]
    # round trips through JSON
    for d, e in zip(ds, eds):
        back = ErrorDistribution.from_dict(json.loads(json.dumps(e.to_dict())))
        check(back.distribution == e.distribution, "serialised %r came back as %r" % (e.distribution, back.distribution))
        check(back == e, "serialised distribution does not compare equal")
    nm = NoiseModel({OpType.from_name(o): e for o, e in zip(case["ops"], eds)})
    nb = NoiseModel.from_dict(json.loads(json.dumps(nm.to_dict())))
    check(set(nb.noisy_gates) == set(nm.noisy_gates), "noise model round trip lost gates")
    for g in nm.noisy_gates:
        check(
            nb.get_error_distribution(g).distribution == nm.get_error_distribution(g).distribution,
            "noise model round trip changed %s" % g,
        )
    check(nb == nm, "noise model round trip does not compare equal")
    # all of its gates are sampled from the generator which is set
    def draws():
        nm.reset_rng(np.random.default_rng(case["seed"]))
        return [nm.get_error_distribution(g).sample() for _ in range(12) for g in nm.noisy_gates]

    check(draws() == draws(), "resetting the generator of a model to the same seed does not reproduce the samples of all of its gates")
    if len(eds) > 1:
        less = NoiseModel({OpType.from_name(o): e for o, e in zip(case["ops"], eds[:-1])})
        check(not (nm == less) and not (less == nm), "noise models with different gates compare equal")
    # equality is sensitive to support and to sizeable rates
    for i, e in enumerate(eds):
        (k0, p0) = list(e.distribution.items())[0]
        other = dict(e.distribution)
        other[k0] = p0 - 0.05 if p0 > 0.06 else p0 + (0.05 if sum(other.values()) < 0.9 else 0)
        if other[k0] == p0:
            continue
        other = ErrorDistribution(other)
        check(not (other == e), "distributions with rates %r and %r compare equal" % (e.distribution, other.distribution))
        # only the distribution of this gate differs
        diff = NoiseModel({OpType.from_name(g): other if j == i else x for j, (g, x) in enumerate(zip(case["ops"], eds))})
        check(not (nm == diff) and not (diff == nm), "noise models compare equal which differ in the errors of %s only" % case["ops"][i])
    # mixture
    mix = ErrorDistribution.mixture(eds)
    want = {}
    for d in ds:
        for s, p in rates(d, n).items():
            want[s] = want.get(s, 0) + p / len(ds)
    close(got_rates(mix, n), want, 1e-9, "mixture")
    # ordering
    f = mk(ds[0])
    f.order(reverse=case["rev"])
    check(f.distribution == eds[0].distribution, "order changed the rates")
    vals = list(f.distribution.values())
    check(vals == sorted(vals, reverse=case["rev"]), "order(reverse=%r) gives %r" % (case["rev"], vals))
    return {"nontrivial": len(ds) > 1, "labels": ["ds%d" % len(ds)]}


# ---- sampling
samp_st = st.fixed_dictionaries({"d": dist_st(2, 100, small=False), "seed": st.integers(0, 10**6), "how": st.booleans()})
N = 1500


def run_samp(case):
    d = case["d"]
    n = d["n"]
    ed = mk(d)
    if case["how"]:
        nm = NoiseModel({OpType.CX: ed})
        nm.reset_rng(np.random.default_rng(case["seed"]))
        first = [ed.sample() for _ in range(20)]
        nm.reset_rng(np.random.default_rng(case["seed"]))
    else:
        ed.reset_rng(np.random.default_rng(case["seed"]))
        first = [ed.sample() for _ in range(20)]
        ed.reset_rng(np.random.default_rng(case["seed"]))
    got = [ed.sample() for _ in range(N)]
    check(got[:20] == first, "resetting the generator to the same seed does not reproduce the samples")
    cnt = {s: 0 for s in strings(n)}
    for g in got:
        cnt["I" * n if g is None else "".join(NAME[x] for x in g)] += 1
    r = rates(d, n)
    for s in cnt:
        p = min(1.0, max(0.0, r[s]))
        sd = sqrt(N * p * (1 - p)) + 1e-9
        check(
            abs(cnt[s] - N * p) < 7 * sd + 3,
            lambda: "%s sampled %d times in %d, rate is %r" % (s, cnt[s], N, p),
        )
    return {"nontrivial": len(d["d"]) > 1}


# ---- refusals
ref_st = st.fixed_dictionaries(
    {"d": dist_st(2, 100, small=False, ident=False), "extra": st.integers(1, 50).map(lambda k: k / 100), "what": st.sampled_from(["sum", "len", "shape", "power", "offdiag"])}
)


def run_refuse(case):
    d = case["d"]
    n = d["n"]
    dd = {tuple(LETTER[c] for c in l): p for l, p in d["d"]}
    try:
        if case["what"] == "sum":
            k = list(dd)[0]
            dd[k] += 1 - sum(dd.values()) + case["extra"]
            ErrorDistribution(dd)
        elif case["what"] == "len":
            dd[tuple(list(dd)[0]) + (Pauli.X,)] = 0.0
            ErrorDistribution(dd)
        elif case["what"] == "shape":
            ErrorDistribution.from_ptm(np.zeros((4, 16)), {(Pauli.I,): 0})
        elif case["what"] == "power":
            ErrorDistribution.from_ptm(np.eye(8), {(Pauli.I,): 0})
        else:
            ptm, index = ErrorDistribution(dd).to_ptm()
            ptm[0][1] = 0.1
            ErrorDistribution.from_ptm(ptm, index)
    except Exception as e:
        if type(e).__name__ == "Violation":
            raise
        return {"labels": [case["what"]]}
    check(False, "invalid %s accepted" % case["what"])


PARTS = [
    Part("ptm", dist_st(), run_ptm, quick=160, thorough=3000, shards=8),
    Part("scale", scale_st, run_scale, quick=300, thorough=5000, shards=8),
    Part("multi", multi_st, run_multi, quick=500, thorough=6000),
    Part("wide", dist_st(n=4), run_ptm, quick=2, thorough=80, shards=8),
    Part("sample", samp_st, run_samp, quick=200, thorough=4000),
    Part("refuse", ref_st, run_refuse, quick=100, thorough=1000, shards=2),
]
