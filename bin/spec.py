"""Per-property settings: number of runs, evidence wording."""
COMPONENTS = {
    "real": "all of /repo/src and /repo/include compiled unchanged: parameters, data, preprocessing, thirteen tasks, solver, caches, terminal solvers, tree construction, file readers, command line main",
    "simulated": "clocks, operator new/delete, std::random_device, open/read of data files, std::cout's buffer, thread scheduling, exit/abort",
}
ASSUMPTIONS = ["data sets of at most about 160 (rarely 300) rows and mostly 8 (at most 24) binary columns, depth mostly at most 4 (at most 6)", "simulator build uses g++ -O1 with the C++ library linked statically"]
DATA = "Each run is made from (property, seed, run number): random table, limits, search switches, clock script and memory layout. "
PYCOMP = {
    "real": "all of /repo/pystreed unchanged and the extension module compiled from /repo/src with the same seams; Python, numpy, scikit-learn, scikit-survival, matplotlib",
    "simulated": "clocks, operator new/delete of the extension, std::random_device, write/open/close/mkdir/rename below the scratch directory, sys.stdout, thread switches",
}
PYDATA = "Each run is made from (property, seed, run number) and executed in a forked process: random tables (arrays or data frames), estimators, parameters, calls and faults. "
PROPS = {
    "C01": dict(pyleg=4000, runs=250000, level="exploration", rule=DATA + "Non-trivial: the fit reported a proven optimum for more than one row and at least one allowed branching node. Distinct by task, switches, limits, proof flag and position of the deadline (power-of-four bucket of work)."),
    "C02": dict(pyleg=4000, runs=250000, level="exploration", rule=DATA + "Non-trivial: the fit reported a proven optimum for more than one row and at least one allowed branching node. Distinct by task, switches, limits, proof flag and position of the deadline."),
    "C03": dict(pyleg=4000, runs=250000, level="exploration", rule=DATA + "Non-trivial: the fit reported a completed search for more than one row and at least one allowed branching node. Distinct by task, switches, limits, proof flag and position of the deadline."),
    "C04": dict(pyleg=4000, runs=250000, level="exploration", rule=DATA + "Non-trivial: the deadline passed while the fit was running. Distinct by task, switches, limits, proof flag and position of the deadline."),
    "C05": dict(pyleg=3000, runs=240000, level="exploration", rule=DATA + "Non-trivial: the deadline passed during the fit, or (ample time) the wall clock was set during it. Distinct by task, tuning, mode, position of the deadline and number of clock events."),
    "C06": dict(pyleg=2500, runs=100000, level="exploration", rule="Each run is a random history of up to eight operations on one solver object, ended by a fit. Non-trivial: at least two fits. Distinct by task and sequence of operations with their outcome (cut short, tuned)."),
    "C07": dict(pyleg=4000, runs=200000, level="exploration", rule="Each run is a random history of fits, predictions and scorings of one or two solvers. Non-trivial: at least two predictions or scorings. Distinct by tasks and sequence of operations."),
    "C08": dict(pyleg=2500, runs=50000, level="exploration", rule="Each run puts two to four solvers on baton-scheduled threads; a seeded scheduler decides at every allocation, clock query, output and lock, and in about 60 % of the runs at every basic block of the project code, who continues; in about 30 % each thread has its own clock and deadline. Non-trivial: at least as many switches as threads. Distinct by tasks and number of switches (power-of-four bucket)."),
    "C09": dict(pyleg=1600, runs=70000, level="exploration", rule="Each run executes the same operations or command line twice under different addresses, memory contents, clocks and entropy. Distinct by task, kind of run and result."),
    "C10": dict(runs=400000, level="exploration", rule="Each run splits a random table with a seeded engine. Non-trivial: at least four rows. Distinct by kind, folds, stratification, label type and size."),
    "C11": dict(pyleg=2500, runs=60000, level="exploration", rule=DATA + "Tuned fits. Distinct by task, deadline position, selected parameters and outcome."),
    "C12": dict(pyleg=4000, runs=45000, level="fault_enumeration", rule="Each run fails seeded allocations of fits, predictions and scorings. Non-trivial: at least one allocation failed during an operation. Distinct by task, operation, outcome and position of the failure (power-of-four bucket)."),
    "C13": dict(runs=300000, level="fault_enumeration", rule="Each run loads generated files with read faults and damage. Non-trivial: a fault fired or the content is malformed. Distinct by task, outcome, fault counts and kind of damage."),
    "C14": dict(runs=400000, level="fault_enumeration", rule="Each run loads a generated cost file with read faults and damage. Non-trivial: a fault fired or the content is malformed. Distinct by outcome, fault counts, kind of damage and sizes."),
    "C15": dict(pyleg=6000, level="fault_enumeration", components=PYCOMP, rule=PYDATA + "Fits and exports with failing writes. Non-trivial: at least two operations completed. Distinct by estimators and sequence of operations with their outcome."),
    "C16": dict(pyleg=6000, level="exploration", components=PYCOMP, rule=PYDATA + "Histories of up to ten calls. Non-trivial: at least two operations completed. Distinct by estimators and sequence of operations with their outcome."),
    "C19": dict(pyleg=4000, level="fault_enumeration", components=PYCOMP, rule=PYDATA + "Verbose fits on one or more baton-scheduled threads with a failing sys.stdout. Distinct by estimators and sequence of operations with their outcome."),
}
