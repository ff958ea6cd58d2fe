"""Source of the sixth part of properties.jsonl (see tools/mk.py)."""
from props_a import TG, _mk

P = []
p = _mk(P)
p(
    "C29",
    "MitRes and MitEx take up exactly the tasks that fit them, and compute them",
    "A MitRes or MitEx accepts a task for prepending or appending exactly if it has one wire in and out and is annotated to take and return the type at that end (circuits with shots and results, experiments and Pauli operators); everything else, parallel tasks and additional wires included, is refused and leaves it as it was. A task graph converts exactly if it has one wire and its last task returns that type, keeping its label. After any history of such calls, conversions, copies, flattening and runs each object computes its own tasks in their order around its device, and nothing done to one changes another.",
    ["histories", "inputs"],
    "all histories of compositions and conversions, and all combinations of annotations and numbers of wires of tasks",
    "no test prepends or appends a task which does not fit, converts back and forth or changes a converted graph",
    [TG + "mitres.py", TG + "mitex.py", TG + "task_graph.py", TG + "mittask.py"],
    [("check_prepend_wires / check_append_wires", TG + "mitres.py"), ("from_TaskGraph", TG + "mitex.py"), ("append/prepend", TG + "task_graph.py")],
    ["MitRes.append/prepend/run", "MitEx.append/prepend/run", "from_TaskGraph"],
)
p(
    "C30",
    "The drawing of a task graph shows exactly its tasks, wires and ports",
    "After any history of graph-building calls (nesting, flattening, copies and runs included) and for any labels, tasks sharing a label included, the drawing of a task graph has one node for each task with its label, one for the inputs and one for the outputs, on each a port for every wire at that end, and one edge for each wire between exactly the ports which it connects: read as a graph the drawing computes what the task graph computes. Drawing does not depend on or change anything else, and graphviz accepts the drawing.",
    ["histories", "inputs"],
    "all histories of graph-building calls and all labels of tasks",
    "the tests draw two graphs and look at nothing",
    [TG + "graphviz.py", TG + "task_graph.py"],
    [("_taskgraph_to_graphviz", TG + "graphviz.py"), ("get_task_graph", TG + "task_graph.py")],
    ["TaskGraph.get_task_graph"],
)
