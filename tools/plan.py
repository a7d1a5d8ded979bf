"""Budgets and texts per property."""
BASE = ["a fault is one failing operation (or a persistent one, a crash, a schedule); several independent faults in one operation are not combined",
        "disk contents survive a process crash as the kernel would keep them: completed writes in order (no reordering by a power failure)"]
HIST = ["values and histories are sampled, not enumerated"]


def p(level, runs, secs, thorough, note, assumptions=BASE, target="core"):
    return {"level": level, "quick_runs": runs, "quick_s": secs, "thorough_s": thorough, "note": note, "assumptions": assumptions, "target": target}


STUBS = ["libROM (BasisGenerator, BasisReader, NNLS): a stand-in over HDF5 files with a deterministic Gram-matrix POD; it is not installed here",
         "MUMPS: a dense LU stand-in (this MFEM is built without MUMPS)",
         "VectorGridFunctionCoefficient::Eval: as in MFEM 4.6 and later, which the code is written for (4.5.2 rejects a flow field on a copy of its mesh)"]
PLAN = {
    "C01": p("exploration", 9000, 60, 600, "random write/reopen/read histories of all stored types under interrupted and shortened I/O, compared bit for bit with an in-memory model", HIST),
    "C02": p("fault_enumeration", 4000, 60, 600, "each save is repeated with a write, open, lock, truncate or close failure at a random I/O operation of it; a normal return must be readable and equal to the model"),
    "C03": p("fault_enumeration", 4000, 60, 600, "each load is repeated with read/open/stat/lock failures at random operations, truncation and missing items; a normal return must equal the model"),
    "C04": p("exploration", 3000, 60, 600, "libraries saved from one random assembly and loaded by others in new processes, compared with a model keyed by name", HIST),
    "C05": p("fault_enumeration", 3000, 60, 600, "saves crashed (before, inside, after) at random I/O operations; the restarted process must get an error or complete data"),
    "C06": p("exploration", 4000, 60, 600, "1 to 4 processes read and write port files under random schedules and crashes; every topology obtained is compared with the one computed from the input file", HIST),
    "C07": p("exploration", 8000, 60, 600, "random assemblies and decompositions, several per process, checked against geometry computed by the harness", HIST),
    "C08": p("exploration", 12000, 60, 600, "random input files and overrides parsed by 1 to 5 ranks under random schedules with missing, unreadable and failing files; every rank that continues must hold the configuration the harness generated", HIST),
    "C09": p("exploration", 16000, 60, 600, "random option histories compared step by step with a dictionary model", HIST),
    "C10": p("exploration", 12000, 60, 600, "random start/stop/print histories on 1 to 4 ranks with a simulated clock that waits and jumps; printed tables compared with the simulated elapsed times", HIST),
    "C11": p("exploration", 4000, 60, 600, "random parameter histories with uniform and adversarial random sources compared with the definition of the grid", HIST),
    "C12": p("exploration", 3000, 60, 600, "open descriptors, HDF5 handles and locks are counted after every operation of random histories", HIST),
    "C13": p("exploration", 20000, 60, 600, "random histories of problem selections and parameter settings compared with an independent definition of every problem and with a fresh process", HIST),
    "C14": p("exploration", 6000, 120, 600, "random sample spaces distributed over 1 to 12 processes, and whole sample generations on 1 to 5 processes under random schedules, with a failing process now and then, compared with what one process produces", target="full"),
    "C15": p("fault_enumeration", 3000, 80, 600, "sampling runs over one or more processes and generations, crashed anywhere or with failures at the port file, then collected by the training stage; every port training set must be stored or an error", target="full"),
    "C16": p("fault_enumeration", 4000, 120, 600, "histories of saves and loads with crashes and disk failures compared bit for bit with a model of what each file may hold; time integrations killed and restarted compared bit for bit with uninterrupted ones", target="full"),
    "C17": p("fault_enumeration", 4000, 150, 600, "sampling, training, building and online solve as separate simulated processes, with crashes and HDF5 I/O failures in any stage; the full-rank reduced solution compared with the full one, between building levels, and bit for bit between interrupted and uninterrupted pipelines", target="full"),
    "C18": p("fault_enumeration", 3000, 150, 600, "sampling, training, hyper-reduction training, building and online solve of flows as separate simulated processes, with crashes and HDF5 I/O failures in any stage; the hyper-reduced solution compared with the full one, between variants that must agree, and bit for bit between interrupted and uninterrupted pipelines", target="full"),
    "C19": p("exploration", 6000, 120, 600, "random problems solved at full order as given and as stated in other ways (numbering, division of the domain, one decomposed mesh, iterative solvers, the sample generation), in dirty memory and with crashes and HDF5 I/O failures; the solutions compared", target="full"),
}
