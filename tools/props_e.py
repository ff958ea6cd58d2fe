"""Source of the fifth part of properties.jsonl (see tools/mk.py)."""
from props_a import TG, _mk

P = []
p = _mk(P)
p(
    "C03",
    "Mitigation methods can be stacked on each other, reused and run again",
    "For every stack of mitigation methods - SPAM correction, frame randomisation and leakage detection over a plain, compiling or shot-splitting MitRes, and ZNE, measurement reduction, DFSC and spectral filtering over a MitEx using it - a noise-free device gives for every circuit its exact outcome distribution and for every experiment the exact expectation values of exactly the requested strings, in order; readout noise which SPAM correction in the stack removes makes no difference to the methods above it. Running the stack again gives the same, also for experiments given twice, and changes none of the experiments. A MitRes or MitEx used to build another keeps its label and works as before.",
    ["configurations", "inputs", "histories"],
    "all stacks of the provided methods over each other, circuits, operators and placements",
    "tests build each method over a plain backend only, apart from three fixed pairs",
    [TG + "mitex.py", TG + "mitres.py", TG + "task_graph.py", TG + "measurement_reduction.py", "qermit/spam/spam_mitres.py", "qermit/frame_randomisation/frame_randomisation.py", "qermit/leakage_detection/leakage_detection.py", "qermit/zero_noise_extrapolation/zne.py", "qermit/clifford_noise_characterisation/dfsc.py", "qermit/spectral_filtering/spectral_filtering.py"],
    [("MitEx(mitres=...)", TG + "mitex.py"), ("keyword arguments of the generators", "qermit/"), ("from_TaskGraph", TG + "task_graph.py")],
    ["MitRes.run", "MitEx.run"],
)
