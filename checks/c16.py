"""Partition of a DAG's coloured nodes into convex sub-DAGs."""

from itertools import combinations

import networkx as nx
from hypothesis import strategies as st
from lib import gen
from lib.pbt import Part, check
from numpy.random import default_rng
from qermit.coherent_pauli_checks.monochromatic_convex_subdag import get_monochromatic_convex_subdag

PROPERTY = "C16"
RULE = (
    "A case is a directed acyclic graph of 0-12 (rarely up to 30) nodes (random edges with random density, or layered wires as circuits give; part large: 20-60 nodes on up to 14 wires), node labels of several kinds, and a "
    "subset of coloured nodes in any order. Non-trivial: the result has a part with two or more nodes and there are two or more parts."
)


@st.composite
def case_st(draw):
    n = draw(gen.size(0, 12, 30))
    kind = draw(st.sampled_from(["random", "wires"]))
    edges = []
    if n >= 2:
        if kind == "random":
            edges = draw(
                st.lists(
                    st.tuples(st.integers(0, n - 2), st.integers(1, n - 1)).map(lambda t: [t[0], min(n - 1, t[0] + t[1])]),
                    max_size=2 * n,
                    unique_by=tuple,
                )
            )
        else:
            w = draw(gen.size(2, 4, 8))
            last = {}
            for i in range(n):
                for q in draw(st.lists(st.integers(0, w - 1), min_size=1, max_size=2, unique=True)):
                    if q in last and [last[q], i] not in edges:
                        edges.append([last[q], i])
                    last[q] = i
    return {
        "n": n,
        "edges": edges,
        "col": draw(st.lists(st.integers(0, n - 1), unique=True, max_size=n)) if n else [],
        "dens": draw(st.sampled_from([0, 1, 1])),
        "relabel": draw(st.sampled_from(["int", "rev", "str"])),
        "perm": draw(st.permutations(range(n))),
    }


def convex(d, s):
    desc = set().union(*[nx.descendants(d, v) for v in s]) if s else set()
    anc = set().union(*[nx.ancestors(d, v) for v in s]) if s else set()
    return not ((desc & anc) - set(s))


def run(case):
    n = case["n"]
    lab = {"int": lambda i: i, "rev": lambda i: n - 1 - i, "str": lambda i: "node%d" % i}[case["relabel"]]
    d = nx.DiGraph()
    for i in case["perm"]:
        d.add_node(lab(i))
    for a, b in case["edges"]:
        d.add_edge(lab(a), lab(b))
    col = [lab(i) for i in case["col"]]
    if case["dens"] and n:
        col = col + [lab(i) for i in range(n) if i % 3 != 2 and lab(i) not in col]
    keep = (set(d.nodes), set(d.edges), list(col))
    r = get_monochromatic_convex_subdag(d, col)
    check((set(d.nodes), set(d.edges), list(col)) == keep, "the graph or the colouring was changed")
    check(set(r) == set(col), "nodes %r assigned, %r coloured" % (set(r), set(col)))
    parts = {}
    for v, s in r.items():
        parts.setdefault(s, set()).add(v)
    for s in parts.values():
        check(convex(d, s), lambda: "part %r is not convex in %r" % (s, list(d.edges)))
    q = nx.DiGraph()
    f = lambda v: ("part", r[v]) if v in r else ("node", v)  # noqa: E731
    q.add_nodes_from({f(v) for v in d.nodes})
    q.add_edges_from({(f(a), f(b)) for a, b in d.edges if f(a) != f(b)})
    check(nx.is_directed_acyclic_graph(q), lambda: "parts %r depend on each other cyclically in %r" % (parts, list(d.edges)))
    below = {v: nx.descendants(q, v) for v in q}
    for a, b in combinations(parts, 2):
        x, y = ("part", a), ("part", b)
        # a path from one part to the other through anything else
        through = any(y in below[m] for m in below[x] if m != y) or any(x in below[m] for m in below[y] if m != x)
        check(
            through,
            lambda: "parts %r and %r could be one part in %r" % (parts[a], parts[b], list(d.edges)),
        )
    return {"nontrivial": len(parts) > 1 and any(len(s) > 1 for s in parts.values()), "labels": ["parts%d" % min(len(parts), 5)]}


@st.composite
def large_st(draw):
    """circuits of many gates: coloured and other nodes along wires, as a box decomposition has them"""
    n = draw(st.integers(20, 60))
    w = draw(st.integers(2, 14))
    rng = default_rng(draw(st.integers(0, 10**6)))
    edges, last, far = [], {}, draw(st.sampled_from([2, 2, 3, 5]))
    for i in range(n):
        for q in rng.permutation(w)[: rng.integers(1, min(far, w) + 1)].tolist():
            if q in last and [last[q], i] not in edges:
                edges.append([last[q], i])
            last[q] = i
    frac = draw(st.sampled_from([0.3, 0.5, 0.7, 0.9]))
    return {
        "n": n,
        "edges": edges,
        "col": [i for i in rng.permutation(n).tolist() if rng.random() < frac],
        "dens": 0,
        "relabel": draw(st.sampled_from(["int", "rev", "str"])),
        "perm": rng.permutation(n).tolist(),
    }


PARTS = [
    Part("large", large_st(), run, quick=160, thorough=4000, shards=8),
    Part("dags", case_st(), run, quick=8000, thorough=150000, shards=8),
]
