from checks.tgmodel import World, large, large_program, program
from lib.pbt import Part

PROPERTY = "C01"
RULE = (
    "A case is a program of graph-building calls (new graph, copy, add_wire(s), parallel, append, "
    "prepend with fresh tasks, reused tasks, tasks duplicating wires or other graphs, run) over up to 5 graphs with 1-5 wires (large: up to 30 wires and 30 calls); every "
    "graph is run at the end, twice, against a functional model whose wires carry symbolic terms. "
    "Non-trivial: at least two different kinds of composition took effect."
)


def run(case):
    w = World()
    for op in case:
        w.step(op)
    for salt in (100, 101):
        for i in range(len(w.graphs)):
            w.run(i, salt)
    kinds = [k for k in ("wire", "parallel", "append", "prepend") if k in w.stats]
    return {
        "nontrivial": len(kinds) >= 2,
        "labels": sorted(w.stats) + ["kinds%d" % len(kinds)],
    }


PARTS = [
    Part("programs", program(False), run, quick=10000, thorough=200000, shards=8),
    Part("large", large_program(False), large(run), quick=2000, thorough=40000, shards=8),
]
