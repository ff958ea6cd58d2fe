from checks.tgmodel import World, large, large_program, program
from lib.pbt import Part

PROPERTY = "C02"
RULE = (
    "As C01 with flattening (decompose_TaskGraph_nodes) at arbitrary points and more nesting, after "
    "which every graph of the program - including those that were used as parts of others - is run against the model "
    "and modified further. Non-trivial: a graph that really contained a nested graph was flattened."
)


def run(case):
    w = World()
    for op in case:
        w.step(op)
    for i in range(len(w.graphs)):
        w.run(i, 100)
    # everything must still be flattenable and give the same answers
    for i in range(len(w.graphs)):
        w.step(("decompose", i))
        for j in range(len(w.graphs)):
            w.run(j, 101 + i)
    return {"nontrivial": "flattened" in w.stats, "labels": sorted(w.stats)}


PARTS = [
    Part("programs", program(True, 16), run, quick=2400, thorough=60000, shards=8),
    Part("large", large_program(True), large(run), quick=600, thorough=15000, shards=8),
]
