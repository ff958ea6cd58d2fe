"""Postselection."""

import random
from collections import Counter

import numpy as np
from checks.progs import build, prog_st, with_twins
from hypothesis import strategies as st
from lib import gen, refsim
from lib.backends import RecordingBackend, result_from_counts
from lib.pbt import Part, Skip, check
from pytket import Bit
from pytket.backends.backendresult import BackendResult
from pytket.utils.outcomearray import OutcomeArray
from qermit import CircuitShots, MitRes
from qermit.postselection import PostselectMgr, gen_postselect_mitres
from qermit.postselection.postselect_mitres import gen_postselect_mgr_gen_task, gen_postselect_task
from qermit.taskgraph import gen_compiled_MitRes

PROPERTY = "C18"
RULE = (
    "A case is a result over 1-5 (sometimes 6-18) bits of several registers in any order, with up to 8 (sometimes 40-200) different outcomes, as counts or as shots, and a choice of compute, postselected and ignored bits in any "
    "order; or 1-3 circuits run through the postselecting MitRes (default, given, compiling). Non-trivial: some shots are kept and some are rejected."
)

POOL = [Bit("a", 2), Bit("c", 1), Bit("c", 0), Bit("b", 2), Bit("a", 10)] + [Bit("bd"[i % 2], 20 - i) for i in range(13)]


@st.composite
def res_st(draw, nb=None):
    nb = nb or draw(gen.size(1, 5, 18))
    order = list(draw(st.permutations(range(nb))))
    if nb > 5 and draw(st.booleans()):
        # many different outcomes; postselected bits are mostly 0
        r = random.Random(draw(st.integers(0, 10**6)))
        rows = [[[int(r.random() < 0.3) for _ in range(nb)], r.randint(1, 9)] for _ in range(draw(st.integers(40, 200)))]
    else:
        rows = draw(st.lists(st.tuples(st.lists(st.integers(0, 1), min_size=nb, max_size=nb), gen.size(1, 30, 3000)), min_size=1, max_size=8))
    return {"order": order, "rows": rows, "shots": draw(st.booleans())}


def mk(d):
    bits = [POOL[i] for i in d["order"]]
    if d["shots"]:
        rows = [r for r, k in d["rows"] for _ in range(k)]
        return BackendResult(shots=OutcomeArray.from_readouts(np.array(rows)), c_bits=bits), bits
    cn = Counter()
    for r, k in d["rows"]:
        cn[tuple(r)] += k
    return result_from_counts(cn, bits), bits


def table(d):
    """list of ({bit: value}, count)"""
    bits = [POOL[i] for i in d["order"]]
    return [(dict(zip(bits, r)), k) for r, k in d["rows"]]


@st.composite
def mgr_case(draw):
    nb = draw(st.one_of(*[st.integers(1, 5)] * 9, st.integers(6, 18)))
    role = [draw(st.sampled_from("ccppi")) for _ in range(nb)]
    role[draw(st.integers(0, nb - 1))] = "c"
    p = draw(st.permutations(range(nb)))
    return {
        "res": draw(st.lists(res_st(nb), min_size=1, max_size=3)),
        "comp": [i for i in p if role[i] == "c"],
        "post": [i for i in p if role[i] == "p"],
    }


def counts_of(r, comp):
    return {k: int(v) for k, v in r.get_counts(comp).items() if v}


def judge(r, d, comp, post, what, select):
    want = Counter()
    for v, k in table(d):
        if not select or not any(v[b] for b in post):
            want[tuple(v[b] for b in comp)] += k
    if not want:
        # nothing is left: no counts are reported
        try:
            left = sum(r.get_counts().values())
        except Exception:
            left = 0
        check(left == 0, "%s: all shots are rejected but %d are reported" % (what, left))
        return 0
    check(list(r.c_bits) == comp or set(r.c_bits) == set(comp), "%s: result over %r, compute bits are %r" % (what, r.c_bits, comp))
    check(counts_of(r, comp) == dict(want), lambda: "%s: %r over %r, expected %r" % (what, counts_of(r, comp), comp, dict(want)))
    return sum(want.values())


def run_mgr(case):
    comp, post = [POOL[i] for i in case["comp"]], [POOL[i] for i in case["post"]]
    m = PostselectMgr(compute_cbits=list(comp), postselect_cbits=list(post))
    some = False
    rs = []
    for d in case["res"]:
        r, bits = mk(d)
        rs.append(r)
        before = r.to_dict()
        kept = judge(m.postselect_result(r), d, comp, post, "postselection", True)
        judge(m.merge_result(r), d, comp, post, "merging", False)
        judge(m.postselect_result(r), d, comp, post, "postselection again", True)
        check(r.to_dict() == before, "the result given was changed")
        some |= 0 < kept < sum(k for _, k in table(d))
    # the task, with a manager per result
    m2 = PostselectMgr(list(reversed(comp)), list(reversed(post)))
    ms = [m if i % 2 == 0 else m2 for i in range(len(rs))]
    (out,) = gen_postselect_task()((list(rs), ms))
    check(len(out) == len(rs), "%d results became %d" % (len(rs), len(out)))
    for r, d in zip(out, case["res"]):
        judge(r, d, comp, post, "task", True)
    return {"nontrivial": some, "labels": ["shots" if case["res"][0]["shots"] else "counts", "post%d" % len(post)]}


def run_refuse(case):
    comp, post = [POOL[i] for i in case["comp"]], [POOL[i] for i in case["post"]]
    try:
        PostselectMgr(comp, post + comp[:1])
    except Exception:
        return {}
    check(False, "%r used both to compute and to postselect: accepted" % (comp[:1],))


SH = 10**8
mit_case = st.fixed_dictionaries(
    {
        "progs": with_twins(gen.some(prog_st(3, 8, naming=["q", "named"], min_n=2), 3)),
        "post": st.lists(st.integers(0, 2), max_size=2, unique=True),
        "kind": st.sampled_from(["default", "given", "compiled"]),
        "twice": st.booleans(),
    }
)


def run_mit(case):
    cs = [CircuitShots(build(dict(p, final=True))[0], SH) for p in case["progs"]]
    keep = [(x.Circuit.copy(), x.Shots) for x in cs]
    bits = [Bit("mb", 2), Bit("ma", 0), Bit("mb", 10)]
    post = [bits[i] for i in case["post"]]
    comp = [b for b in bits if b not in post]
    be = RecordingBackend(compile_kind="none")
    kw = {}
    if case["kind"] == "given":
        kw = {"mitres": MitRes(be)}
    elif case["kind"] == "compiled":
        kw = {"mitres": gen_compiled_MitRes(be, 0)}
    mr = gen_postselect_mitres(be, PostselectMgr(comp, post), **kw)
    some = False
    for rnd in range(2 if case["twice"] else 1):
        res = mr.run(list(cs))
        check([(x.Circuit, x.Shots) for x in cs] == keep, "the caller's circuits were changed")
        check(len(res) == len(cs), "%d results for %d circuits" % (len(res), len(cs)))
        for (c, s), r in zip(keep, res):
            d = refsim.distribution(c)
            want = {}
            for k, v in d.items():
                v_ = dict(zip(c.bits, k))
                if not any(v_[b] for b in post):
                    kk = tuple(v_[b] for b in comp)
                    want[kk] = want.get(kk, 0) + v
            some |= 1e-3 < sum(want.values()) < 0.999
            if sum(want.values()) < 1e-6:
                continue
            got = {k: v / SH for k, v in r.get_counts(comp).items()}
            check(refsim.tv(got, want) < 1e-5, lambda: "postselected results %r, expected %r" % (got, want))
            check(set(r.c_bits) == set(comp), "result over %r" % (r.c_bits,))
    if kw and keep:
        # the MitRes given still runs by itself
        r = kw["mitres"].run([CircuitShots(keep[0][0].copy(), SH)])
        check(len(r) == 1 and set(r[0].c_bits) == set(keep[0][0].bits), "the MitRes given was changed")
    return {"nontrivial": some, "labels": [case["kind"]]}


def run_gen(case):
    m = PostselectMgr([POOL[0]], [POOL[1]])
    cs = [CircuitShots(build(p)[0], 1 + i) for i, p in enumerate(case)]
    out, ms = gen_postselect_mgr_gen_task(m)((list(cs),))
    check(out == cs and len(ms) == len(cs) and all(x is m or (x.compute_cbits, x.postselect_cbits) == (m.compute_cbits, m.postselect_cbits) for x in ms), "circuits %r, managers %r" % (out, ms))
    return {"nontrivial": len(cs) > 1}


PARTS = [
    Part("manager", mgr_case(), run_mgr, quick=2000, thorough=50000, shards=8),
    Part("refuse", mgr_case(), run_refuse, quick=200, thorough=1000, shards=1),
    Part("mitres", mit_case, run_mit, quick=300, thorough=6000, shards=8),
    Part("uniform", st.lists(prog_st(2, 2), max_size=3), run_gen, quick=60, thorough=300, shards=1),
]
__all__ = ["Skip"]
