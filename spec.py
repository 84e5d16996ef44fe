"""What decides each property: list of (variant, scenario, ranks, weight)."""
CHECKS = {
    "C01": [("t", "pool_exactly_once", 0, 5), ("t", "pool_long_history", 0, 1)],
    "C02": [("t", "pool_failures", 0, 1)],
    "C03": [("t", "pool_lifecycle", 0, 1)],
    "C04": [("t", "pool_isolation", 0, 1)],
    "C05": [("t", "pool_factory", 0, 1)],
}
POOL_REAL = "k52 parallel module (thread pool, workers, queue, sequential pool, factory), Boost.Thread, libstdc++, all on real pthreads parked and released one at a time"
POOL_STUB = "pthread mutex/condition/rwlock/create/join, time, sleep, processor count, allocator (simulated)"
INFO = {
    p: {"real": POOL_REAL, "stub": POOL_STUB,
        "assumptions": ["data races in libstdc++/Boost binary code that is not instrumented are not seen; interleavings are sequentially consistent"]}
    for p in ("C01", "C02", "C03", "C04", "C05")
}
CHECKS.update({
    "C06": [("m", "mpi_exactly_once", 6, 6), ("m", "mpi_exactly_once", 20, 1)],
    "C07": [("m", "mpi_shutdown", 6, 6), ("m", "mpi_shutdown", 20, 1)],
    "C09": [("m", "mpi_statistics", 6, 6), ("m", "mpi_statistics", 20, 1)],
    "C20": [("m", "mpi_latency", 6, 1)],
    "C10": [("t", "ga_determinism", 0, 1)],
    "C11": [("t", "ga_reports", 0, 1)],
    "C12": [("t", "ga_any_stream", 0, 1)],
    "C13": [("t", "ga_population_file", 0, 1)],
    "C14": [("t", "disk_indifferent", 0, 1)],
    "C21": [("t", "objective_fails", 0, 2), ("t", "search_failures", 0, 1)],
    "C15": [("t", "random_search", 0, 1)],
    "C16": [("t", "annealing", 0, 1)],
    "C19": [("t", "random_quantities", 0, 1)],
    "C22": [("t", "optimizers_independent", 0, 1)],
})
MPI_REAL = "k52 parallel module built with its distributed pool (server and worker pools, call chains, object registry, factory, statistics): one private copy of the whole library per simulated rank"
MPI_STUB = "MPI and Boost.MPI (simulated transport: delay, slow ranks, eager or rendezvous completion, ordered per pair of ranks as MPI guarantees), Boost.Serialization archives, time, sleep, allocator"
MPI_ASSUME = ["the transport loses, duplicates and reorders nothing within a pair of ranks, as MPI guarantees; crashed ranks end the job, as with MPI"]
for p in ("C06", "C07", "C09", "C20"):
    INFO[p] = {"real": MPI_REAL, "stub": MPI_STUB, "assumptions": MPI_ASSUME}
OPT_REAL = "k52 optimization, parallel (thread pool) and common modules, Boost.Thread, libstdc++ streams, all on real pthreads parked and released one at a time"
OPT_STUB = "pthread primitives, rand, time, processor count, files (in-memory disk with faults), allocator"
for p in ("C10", "C11", "C12", "C13", "C14", "C15", "C16", "C19", "C21", "C22"):
    INFO[p] = {"real": OPT_REAL, "stub": OPT_STUB, "assumptions": ["objective functions are pure and their results positive and finite where the genetic algorithm uses them"]}
CHECKS["C17"] = [("t", "dsp_independent", 0, 1)]
CHECKS["C18"] = [("t", "settings", 0, 1)]
INFO["C17"] = {"real": "k52 dsp module, FFTW, Boost.Thread, libstdc++, all on real pthreads parked and released one at a time",
               "stub": "pthread primitives, allocator; FFTW plans are made by estimate (the planner measures time otherwise)",
               "assumptions": ["memory accesses inside FFTW are not seen; its entry points are checked for use by two threads at once where FFTW forbids it"]}
INFO["C18"] = {"real": "k52 settings manager, Boost.PropertyTree, libstdc++ streams, Boost.Thread",
               "stub": "files (in-memory disk with faults), pthread primitives, allocator", "assumptions": []}
CHECKS["C08"] = [("m", "mpi_transfer", 6, 6), ("m", "mpi_optimization", 6, 6), ("m", "mpi_optimization", 16, 1)]
INFO["C08"] = {"real": MPI_REAL.replace("k52 parallel module", "k52 optimization and parallel modules"), "stub": MPI_STUB + ", rand (one source per rank), files", "assumptions": MPI_ASSUME + ["registered prototypes have the meta-parameters (limits, precision) of what is sent, as the library asks"]}

CHECKS["C23"] = [("t", "pool_memory", 0, 1)]
CHECKS["C24"] = [("t", "optimization_memory", 0, 3), ("t", "search_memory", 0, 2), ("t", "dsp_memory", 0, 2), ("t", "settings_memory", 0, 1)]
INFO["C23"] = {"real": POOL_REAL, "stub": POOL_STUB, "assumptions": ["allocations made for an exception object itself do not fail (the C++ runtime keeps a reserve for them)", "memory becomes available again: an allocation that is repeated succeeds in the end"]}
INFO["C24"] = {"real": "k52 optimization, common and dsp modules, thread pool, settings, FFTW, Boost, libstdc++", "stub": OPT_STUB,
               "assumptions": ["allocations inside FFTW and for exception objects do not fail", "memory becomes available again"]}
CHECKS["C25"] = [("t", "ga_refusals", 0, 1)]
INFO["C25"] = INFO["C11"]
CHECKS["C26"] = [("t", "parameters", 0, 1)]
INFO["C26"] = {"real": "k52 optimization parameters (integer, real, arrays, composites), Boost.Thread, libstdc++", "stub": "pthread primitives, allocator",
               "assumptions": ["one object is used by one thread at a time, only cloning a shared one may happen in several"]}
CHECKS["C27"] = [("t", "pool_parallel", 0, 1)]
INFO["C27"] = {"real": POOL_REAL.replace("k52 parallel module", "k52 parallel and optimization modules"), "stub": POOL_STUB + ", rand",
               "assumptions": ["as many processors as the machine reports are free: a thread that can run is never stalled in this check"]}
CHECKS["C28"] = [("t", "nothing_left", 0, 4), ("m", "mpi_pool_left", 6, 1), ("m", "mpi_optimization_left", 6, 1)]
INFO["C28"] = {"real": "k52 common, parallel (thread pool and, in the MPI build, the distributed pool), optimization and dsp modules, FFTW, Boost, libstdc++", "stub": OPT_STUB + "; MPI and Boost.MPI in the scenarios of the distributed pool",
               "assumptions": ["memory is lost if repeating one history leaves more behind time and again", "memory of the simulator itself is not counted"]}
