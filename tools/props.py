NOTE = ("Seeded search over simulated executions of the real code: every thread interleaving decision, delay, wake-up, random number and fault comes from one seed. "
        "A clean batch is evidence, not proof; interleavings are sequentially consistent; uninstrumented library code (libstdc++, Boost, FFTW) is executed for real but its memory accesses are only seen at the boundary.")
PROPS = []
def P(id, title, statement, over, text, why, files, mech, technique="", na=None, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
                  "why_tests_cant": why, "anchors": a, "technique": technique, "na": na})
TP = ["src/parallel/thread/thread_worker_pool.cpp", "src/parallel/thread/thread_worker_pool_templated.h", "src/parallel/thread/worker.h",
      "src/parallel/thread/thread_safe_queue.h", "src/parallel/thread/thread_worker_pool_task.cpp"]
P("C01", "A thread pool runs every task of a batch once and returns results by position",
  "Whatever batch of succeeding tasks is given to a thread pool, and however many batches were run before, each task is performed exactly once (a task object given several times: once for each of its places) and to its end, "
  "and the call returns as many results as there were tasks, the i-th being what the i-th task produced. It does so under every interleaving of the caller and the workers, with no batch (empty, smaller or larger than the pool) lost, blocked or mixed with another; results handed out earlier keep their value.",
  ["schedules", "histories", "inputs"], "every interleaving of caller and workers, every batch size and pool size, every sequence of batches on one pool, spurious wake-ups included",
  "No test runs the thread pool at all; one run would sample a single interleaving.", TP,
  [("blocking queue between caller and workers", "src/parallel/thread/thread_safe_queue.h"), ("worker loop and completion", "src/parallel/thread/worker.h"), ("one result slot per task", "src/parallel/thread/thread_worker_pool.cpp")],
  "seeded schedules of the real pool with spurious wake-ups, exactly-once and positional oracle per batch, deadlock and data-race detection")
P("C02", "A task failing in a thread pool is reported to the caller and harms nothing else",
  "If tasks of a batch given to a thread pool fail with an exception of any type, the batch call itself fails, with a failure that a task of that batch raised whenever its type can be transported, only after every task of the batch was performed (once) and ended; the process does not end and no caller waits forever. "
  "Afterwards the pool runs further batches correctly, and a batch in which no task fails reports no failure.",
  ["schedules", "fault_sequences", "inputs"], "every set of failing tasks in a batch, every kind of exception, every interleaving, every later batch",
  "No test lets a task throw; the position and timing of the failure relative to the other workers is the point.", TP,
  [("failure is caught in the worker and kept with the task", "src/parallel/thread/worker.h"), ("failure is raised again for the caller", "src/parallel/thread/thread_worker_pool.cpp")],
  "seeded schedules with injected task failures, containment oracle, bounded progress")
P("C03", "A thread pool starts and stops its workers completely, also when starting fails",
  "Destroying a thread pool ends all of its workers before the destructor returns, whether or not it ran any batch and whatever the workers were doing; it never blocks forever. "
  "If the system refuses to start one of the threads, creating the pool fails with an exception and no worker is left running; a pool without enough workers says it is not valid and refuses batches without running anything.",
  ["schedules", "fault_sequences", "configurations"], "every interleaving of construction, use and destruction; every pattern of failing thread creation; every processor count from 1 up",
  "Thread creation never fails in a test and destruction is not observed under adverse schedules.", TP,
  [("poison tasks and joins at destruction", "src/parallel/thread/thread_worker_pool_templated.h"), ("validity test", "src/parallel/thread/thread_worker_pool.cpp")],
  "seeded schedules with injected thread-creation failures, no-thread-left and no-deadlock oracle")
P("C04", "Pools share nothing, race on nothing, and touch nothing after a call returns",
  "Any number of thread pools can be created, used and destroyed by different threads at the same time, and each behaves as if it were alone. "
  "No run contains a data race, and once a batch call has returned no worker reads or writes the caller's tasks, results or result slots, so the caller may destroy them at once and the results it drops are destroyed then and there.",
  ["schedules", "histories"], "every interleaving of one to three callers with their own pools, tasks and results destroyed immediately after each call",
  "Races and use after return need a particular interleaving and are invisible to tests that pass.", TP,
  [("queue lock and per-task completion", "src/parallel/thread/thread_safe_queue.h, src/parallel/thread/worker.h")],
  "seeded schedules with a precise happens-before race detector and heap checker on every access of the real code")
P("C05", "The pool chosen as best is valid, and all pool kinds agree",
  "The best pool the factory creates is always valid: parallel with one worker per processor when the machine has at least two processors, otherwise the sequential one, and probing unsuitable kinds leaves no thread behind; a kind that this build cannot create is said to be unavailable and asking for it fails with an exception. "
  "Every batch history gives the same results and the same success or failure on the best pool as on the sequential pool, and the sequential pool's statistics count exactly the tasks it performed.",
  ["configurations", "schedules", "histories"], "every processor count, every batch history with succeeding and failing tasks, every interleaving",
  "Tests run on one machine with one processor count and do not compare pool kinds.",
  ["src/parallel/worker_pool_factory.cpp", "src/parallel/sequential_worker_pool.cpp", "src/parallel/thread/thread_worker_pool.cpp", "src/parallel/statistics_aggregator.cpp"],
  [("selection order and validity test", "src/parallel/worker_pool_factory.cpp"), ("reference behaviour", "src/parallel/sequential_worker_pool.cpp")],
  "simulated machine sizes and schedules, sequential pool as the executable reference model")
MP = ["src/parallel/mpi/mpi_worker_pool.cpp", "src/parallel/mpi/async_call_chain.cpp", "src/parallel/mpi/delay_supplier.cpp"]
P("C06", "The distributed pool runs every task once on a worker, results in place",
  "In a distributed job of two or more ranks, every batch given to the pool on the server has each of its tasks performed exactly once, on a worker rank and never on the server, and the call returns the result of the i-th task in the i-th place, complete in all its parts. "
  "This holds for every number of ranks and tasks (none included), tasks of several registered classes, tasks and results of several messages, and every message delay, slow worker and buffering choice of the transport; later batches on the same pool behave like the first. A batch containing a task that cannot be distributed is refused as a whole, before any of it is performed.",
  ["schedules", "inputs", "histories"], "every interleaving of the ranks' progress with message delays and eager or rendezvous sends, every batch history",
  "No test starts more than one rank, and the shipped build compiles the distributed pool out.", MP,
  [("hand-out and collection loop", "src/parallel/mpi/mpi_worker_pool.cpp"), ("worker loop", "src/parallel/mpi/mpi_worker_pool.cpp"), ("results of several messages", "src/parallel/mpi/async_call_chain.cpp")],
  "all ranks in one process on a simulated MPI transport, seeded delays and progress, exactly-once and positional oracle, deadlock detection")
P("C07", "Destroying the distributed pool ends every worker and leaves no message",
  "When the server destroys its distributed pool, every worker rank ends its process normally with success, whether the pool ran any batches or none, after every task handed out was finished; no message stays undelivered, no rank blocks forever, and the server process itself goes on. "
  "Creating the pool never returns on a worker rank; only one distributed pool can exist in a process; a job without workers has a pool that says it is not valid and refuses batches.",
  ["schedules", "histories", "configurations"], "every number of ranks, every history before destruction, every message timing, late and slow workers",
  "Needs several ranks and adverse timing; not built by default.", MP + ["src/parallel/worker_pool_factory.cpp"],
  [("end-of-work messages", "src/parallel/mpi/mpi_worker_pool.cpp"), ("worker loop exit", "src/parallel/mpi/mpi_worker_pool.cpp")],
  "simulated MPI job, exit-state and message-conservation oracle")
P("C09", "Statistics of the distributed pool count exactly what each worker did",
  "After every batch the distributed pool's statistics list each worker rank at most once, give for each exactly the number of tasks that this rank performed since the pool exists and no errors, and sum to the number of tasks run so far. "
  "This holds for every timing and whatever worker was faster.",
  ["schedules", "histories"], "every message timing and every batch history",
  "Needs several ranks and the true per-rank history to compare with.", MP + ["src/parallel/statistics_aggregator.cpp"],
  [("counting at completion", "src/parallel/mpi/mpi_worker_pool.cpp"), ("aggregation per worker", "src/parallel/statistics_aggregator.cpp")],
  "simulated MPI job, counters compared with the recorded per-rank history")
GAF = ["src/optimization/genetic_algorithm/genetic_algorithm.cpp", "src/optimization/genetic_algorithm/individual.cpp", "src/optimization/objective_function_counter.cpp", "src/optimization/count_objective_function_task.cpp"]
P("C10", "A genetic optimisation depends on its random stream, not on the schedule",
  "Given the same settings, pure objective function and random numbers, a genetic optimisation reports the same generations (best and average fitness, best parameters, choice statistics, invalid counts) and returns the same parameters however many processors and workers evaluate it, however they interleave and however long evaluations take. "
  "The fitness cache being on or off and its size, population saving, and earlier optimisations (other function, other problem, even failed ones) on the same object make no difference.",
  ["schedules", "configurations", "histories"], "every interleaving and number of workers, cache on or off, object new or used",
  "Tests run one schedule on one machine and never compare runs.", GAF,
  [("parallel fitness evaluation", "src/optimization/genetic_algorithm/genetic_algorithm.cpp"), ("fitness cache", "src/optimization/genetic_algorithm/genetic_algorithm.cpp, include/k52/common/cache.h")],
  "paired runs on one recorded random stream: sequential reference run against a run on seeded schedules")
P("C11", "A genetic optimisation reports exactly what it evaluated and returns its best",
  "Every generation report agrees with the evaluations really made: its number, the best fitness as the best ever evaluated together with parameters that have exactly this fitness and meet their constraints, the average, evaluations plus cache hits covering the population, and choice statistics that hold the previous generation's individuals with every chosen parent counted. "
  "The run stops exactly when the stop fitness is reached or the generations are used up, and the caller receives the best reported parameters; without mutation the elite survives and no gene appears from nothing; nothing violating its constraints is ever evaluated. This also holds for repeated optimisations on one object, given first populations, and parallel evaluation.",
  ["inputs", "histories", "schedules"], "every problem, setting, random stream, and number of workers",
  "Tests check a few fixed examples of parts, never the reports of a run against the recorded evaluations.", GAF,
  [("generation loop, elites, crossover, statistics", "src/optimization/genetic_algorithm/genetic_algorithm.cpp"), ("mutation", "src/optimization/genetic_algorithm/flip_bit_mutator.cpp, src/optimization/genetic_algorithm/linear_mutator.cpp")],
  "seeded runs with a recording objective function; every report checked as an invariant against the recorded history")
P("C12", "A genetic optimisation works under any stream of random numbers",
  "With valid settings and parameters whose every chromosome is valid, a genetic optimisation ends within its number of generations without any failure, and keeps all its reports true, for every stream of raw random numbers the generator may deliver: constant lowest or highest values, alternations, repeated, tiny, huge or mixed ones. "
  "Extreme fitness landscapes (all equal, all zero but few, very large or very small) make no difference.",
  ["inputs"], "every sequence of values of the raw random number source",
  "Tests see typical random numbers only; boundary values come once in two thousand million draws.", GAF + ["src/common/random.cpp", "src/optimization/genetic_algorithm/flip_bit_mutator.cpp", "src/optimization/genetic_algorithm/linear_mutator.cpp"],
  [("roulette selection and crossover points", "src/optimization/genetic_algorithm/genetic_algorithm.cpp"), ("event decisions", "src/common/random.cpp"), ("discrete encodings", "src/optimization/params")],
  "simulated random source with adversarial streams, same invariants as for reporting")
P("C13", "Saved populations are restored completely or refused, whatever the disk does",
  "A population saved through the generation report and intact on disk is what a new optimisation given this file starts from: exactly the saved individuals, with their fitness to the written precision. "
  "After write errors, torn or short writes, a full disk, a power cut during saving, a truncated file, or read errors, starting from the file either fails before anything is evaluated or starts from a population that really was saved; a missing file, another population size or another chromosome length is refused; no file stays open.",
  ["crash_points", "fault_sequences", "inputs"], "every fault pattern of the disk while saving and loading, every cut of the file, every earlier file contents",
  "Tests write no population files and disks do not fail in tests.", ["src/optimization/genetic_algorithm/genetic_algorithm.cpp", "src/optimization/genetic_algorithm/individual.cpp"],
  [("writing and reading a population", "src/optimization/genetic_algorithm/genetic_algorithm.cpp"), ("one individual", "src/optimization/genetic_algorithm/individual.cpp")],
  "simulated disk with errors, torn writes, ENOSPC, power cuts and truncation; refinement against the saved history")
P("C14", "A failing disk never changes the outcome of an optimisation",
  "Files an optimisation writes on the way (saved populations, the simplex log) are by-products: whatever fails when opening or writing them, the optimisation does not fail, reports the same and returns bit for bit the same result as with a working disk. "
  "This covers the genetic algorithm, the bounded simplex method and the parallel random search that runs it, and no file stays open afterwards.",
  ["fault_sequences", "schedules"], "every pattern of open, write, torn-write, disk-full and power-cut faults, every interleaving of workers",
  "Disks do not fail in tests.", ["src/optimization/bounded_nelder_mead.cpp", "src/optimization/genetic_algorithm/genetic_algorithm.cpp", "src/optimization/random_search.cpp"],
  [("population saving", "src/optimization/genetic_algorithm/genetic_algorithm.cpp"), ("simplex log", "src/optimization/bounded_nelder_mead.cpp")],
  "paired runs on a working and a failing simulated disk")
P("C20", "The distributed pool notices results and uses idle workers within bounded time",
  "With message delays of at most a few milliseconds, a batch call on the distributed pool returns within a bounded time (about a second per outstanding message) after its last task ended, however long the tasks took; a task for which there is an idle worker starts within a tenth of a second of the call; and a worker that finished while tasks wait gets the next one within a bounded time. "
  "Backing off while waiting never grows without bound.",
  ["schedules"], "every timing of tasks from nothing to tens of seconds, every message delay up to the bound",
  "Liveness with bounds needs controlled time; tests can not run for minutes of waiting.", MP,
  [("polling with growing pauses", "src/parallel/mpi/mpi_worker_pool.cpp"), ("worker polling", "src/parallel/mpi/mpi_worker_pool.cpp")],
  "simulated clock and transport, bounded-progress oracle in simulated time")
P("C21", "A failing objective function fails the optimisation cleanly",
  "If the objective function throws during a genetic optimisation or a parallel random search (alone or running another optimiser), the call fails, with the kind of exception the function raised when its type can be transported, and if no evaluation failed it does not fail; it never hangs, never ends the process, and leaves the caller's parameters as they were. "
  "The same holds for the local methods and simulated annealing, with exactly the exception the function raised. Afterwards the same object optimises as well as a new one.",
  ["fault_sequences", "schedules", "histories"], "every pattern of failing evaluations, every kind of exception, sequential or parallel evaluation",
  "No test has a failing objective function.", ["src/optimization/genetic_algorithm/genetic_algorithm.cpp", "src/optimization/random_search.cpp", "src/parallel/thread/worker.h", "src/parallel/sequential_worker_pool.cpp"],
  [("failure crosses from the worker to the caller", "src/parallel/thread/worker.h, src/parallel/thread/thread_worker_pool.cpp")],
  "injected evaluation failures on seeded schedules, containment and recovery oracle against a fresh object")
P("C15", "A random search returns the best of exactly the points it drew",
  "Under any stream of random numbers and on any number of processors, a random search uses exactly its configured number of points, those that the stream means for its bounds, each once and all within the bounds, and returns among the points (or among what the given optimiser makes of each point, each run independently of the others) one with the best value, infinite values included. "
  "The result depends on the random stream only, not on the number of workers or their interleaving; a search without points fails and leaves the caller's parameters alone, and a search object can be used again.",
  ["schedules", "inputs", "configurations"], "every random stream, number of points, bounds, direction, inner optimiser, number of processors and interleaving",
  "No test runs a random search; which worker finishes first and which points tie matters.",
  ["src/optimization/random_search.cpp", "src/optimization/objective_function_counter.cpp", "src/optimization/optimization_task.cpp", "src/common/random.cpp"],
  [("drawing and choosing", "src/optimization/random_search.cpp"), ("parallel optimisation of points", "src/optimization/optimization_task.cpp")],
  "seeded schedules and simulated random source, recorded evaluations compared with the drawn points and a sequential reference")
P("C16", "Simulated annealing follows the annealing rule on any random stream",
  "For every stream of random numbers, simulated annealing of n iterations starts at the given point, in iteration i tries a point that differs in one coordinate drawn within the bounds, goes to it if it is better and otherwise with probability exp(-worsening / temperature) where the temperature falls linearly from 1 to 0 as (n - i) / n, and returns the point where it is at the end. "
  "It never fails, never leaves the bounds with a coordinate it changed, maximises when asked to, and behaves the same when the object is used again, also after an objective function that failed.",
  ["inputs", "histories"], "every random stream including boundary values, every function, start, bounds, number of iterations and direction",
  "No test runs simulated annealing; its decisions are random.",
  ["src/optimization/simulated_annealing.cpp", "src/common/random.cpp"],
  [("acceptance and temperature", "src/optimization/simulated_annealing.cpp"), ("event decision", "src/common/random.cpp")],
  "simulated random source; refinement against an executable reference model on the same stream")
P("C19", "Random quantities keep their range and distribution under every raw stream",
  "Whatever the raw generator delivers, a random quantity lies within the requested closed range (integers over ranges the generator can cover, reals, vectors), both ends of an integer range can occur, an event of probability 0 never and of probability 1 always happens, and probabilities outside [0, 1] are refused. "
  "Over well-mixed streams integers are uniform, booleans fair and independent, and events as frequent as asked; the linear mutator flips genes at the rate its settings mean, and the flip-bit mutator leaves fewer genes than the inverse of its probability between two flips, every such number equally often.",
  ["inputs"], "every raw stream: constants, extremes, alternating, mixed, and long uniform streams",
  "Tests draw a few typical values; boundary draws come once in two thousand million.",
  ["src/common/random.cpp", "include/k52/common/random.h", "src/optimization/genetic_algorithm/linear_mutator.cpp"],
  [("range mapping", "src/common/random.cpp"), ("event decision", "src/common/random.cpp")],
  "simulated raw random source with adversarial and uniform streams, range invariants and statistical bounds")
P("C22", "Local optimisers depend neither on each other nor on their past",
  "An optimisation with any of the local methods (bounded simplex, Hooke-Jeeves, Rosenbrock, steepest descent, conjugate gradient) gives bit for bit the same result whether its object is new, cloned, or used before (for another function, dimension or a function that failed), and whether it runs alone or while other optimisations, also of the same kind, run in other threads. "
  "The bounded simplex and Hooke-Jeeves methods never return a point worse than the one they started from.",
  ["schedules", "histories", "inputs"], "every interleaving of one to three optimisations, every earlier use of the object",
  "Tests use a new object each and one thread.",
  ["src/optimization/bounded_nelder_mead.cpp", "src/optimization/hooke_jeeves_method.cpp", "src/optimization/hleborodov_rosenbrock_method.cpp", "src/optimization/steepest_descent_method.cpp", "src/optimization/conjugate_gradient_method.cpp", "src/optimization/continuous_optimizer.cpp"],
  [("state of an optimisation kept in the object", "src/optimization/hleborodov_rosenbrock_method.cpp, src/optimization/bounded_nelder_mead.cpp"), ("processor set per optimisation", "src/optimization/continuous_optimizer.cpp")],
  "seeded schedules with race detection, paired with a run alone in a new object")
P("C17", "Signal transforms in several threads do not influence each other",
  "Fourier transforms, convolutions and wavelet transforms that several threads make, use and destroy at the same time, each thread using its own objects or objects handed over to it, give what their definition says to within rounding, whatever was transformed before and by whichever thread; the continuous wavelet transform and objects without state can even be shared. "
  "A wavelet cache of any size never changes a result, a refused request (wrong length, no values, non-positive scale) fails with an exception and leaves all objects usable, there is no data race and no concurrent planning, and nothing is left allocated in the FFT library afterwards.",
  ["schedules", "histories", "inputs"], "every interleaving of one to four threads creating, using, passing on and destroying transform objects, every order of sequences and wavelets on one object, every cache limit",
  "Tests use one object in one thread on one sequence; planner races need a particular interleaving.",
  ["src/dsp/transform/fast_fourier_transform.cpp", "src/dsp/transform/fourier_based_circular_convolution.cpp", "src/dsp/transform/inverse_fourier_transform.cpp", "src/dsp/transform/wavelet/fast_wavelet_transform.cpp", "include/k52/common/cache.h", "src/dsp/cwt.cpp"],
  [("lock around the planner", "src/dsp/transform/fast_fourier_transform.cpp"), ("cache of wavelet samples", "src/dsp/transform/wavelet/fast_wavelet_transform.cpp, include/k52/common/cache.h")],
  "seeded schedules of real transforms with race detection, planner-exclusion and leak oracle, results compared with the definition")
P("C18", "Settings load completely or not at all, and keep every value put into them",
  "Loading settings from an XML file either gives every value of the file or fails with an exception, whatever the disk does (refused opens, read errors, short reads, a missing or cut file; only a file cut before its root element may count as empty); it never changes the file nor leaves it open, and the same file loads once the disk works. "
  "Every value put or given on the command line (the last one wins, arguments without the prefix are ignored) is read back exactly, the default is delivered only for a setting that is absent or of another type, a mandatory one then fails; settings objects in several threads are independent.",
  ["fault_sequences", "crash_points", "inputs", "schedules"], "every cut of the file, every pattern of open and read faults, every document, every sequence of puts, one to three threads",
  "Tests load a few whole files from a working disk.",
  ["include/k52/common/settings_manager.h", "include/k52/common/settings_manager.inl"],
  [("loading and access", "include/k52/common/settings_manager.inl")],
  "simulated disk with faults and cuts, all-or-nothing oracle against the written document, reference model of puts")
P("C08", "Distributing an optimisation over processes does not change its outcome",
  "Parameters (continuous, integer, real, arrays, composites) and the local optimisers arrive at another rank as they were sent: same values as their chromosome or array says, and an optimiser that finds bit for bit the same points, whatever settings the receiving prototype had and whatever else is on the way. "
  "A random search (alone or with a local optimiser) and a genetic algorithm on the distributed pool, with two or more ranks and any message timing, return, and report for every generation, exactly what the same random stream gives in one process, with the evaluations done by the workers, and all ranks end cleanly afterwards.",
  ["schedules", "configurations", "inputs", "histories"], "every number of ranks, message timing and completion mode, kind of parameters and optimiser with any settings, several optimisations on one pool",
  "MPI code is not built by the tests; a field forgotten or swapped in a transfer gives plausible but different results.",
  ["src/optimization/optimization_task.cpp", "src/optimization/optimization_task_result.cpp", "src/optimization/count_objective_function_task.cpp", "src/optimization/objective_function_task_result.cpp", "src/optimization/params/discrete_parameters.cpp", "src/optimization/params/continuous_parameters_array.cpp", "src/optimization/bounded_nelder_mead.cpp", "src/optimization/hooke_jeeves_method.cpp", "src/optimization/hleborodov_rosenbrock_method.cpp", "src/optimization/steepest_descent_method.cpp", "src/optimization/conjugate_gradient_method.cpp", "src/parallel/mpi/identifyable_objects_manager.cpp"],
  [("sending and receiving tasks", "src/optimization/optimization_task.cpp, src/optimization/count_objective_function_task.cpp"), ("prototypes by type", "src/parallel/mpi/identifyable_objects_manager.cpp")],
  "simulated transport with delays and rendezvous, round trips compared by value and behaviour, paired runs in one process")
P("C23", "Running out of memory ends a batch cleanly and never hangs it",
  "Whichever allocations fail, in the caller or in the workers, creating a thread pool either succeeds or throws and leaves no thread behind, and a call that performs a batch returns (allocations that are tried again succeed in the end): normally with every task performed exactly once and its own result, or with an exception. "
  "When it returns, none of its tasks is running or will be performed any more, no task was performed twice, a task's own failure is not lost, and with memory available the same pool performs the next batch completely and can be destroyed.",
  ["fault_sequences", "schedules", "histories"], "every pattern of failing allocations in caller and workers, every interleaving, batches of any size and later batches",
  "An allocation fails in no test; which of the threads meets it and how far the batch is matters.",
  ["src/parallel/thread/thread_worker_pool_templated.h", "src/parallel/thread/worker.h", "src/parallel/thread/thread_safe_queue.h", "src/parallel/thread/thread_worker_pool.cpp"],
  [("giving tasks to workers and waiting for them", "src/parallel/thread/thread_worker_pool_templated.h"), ("handing a task back", "src/parallel/thread/worker.h")],
  "injected allocation failures per thread on seeded schedules, per-task counters, freed-memory and deadlock detection")
P("C24", "Running out of memory is reported and leaves every object usable",
  "If an allocation fails during an optimisation (genetic algorithm, random search, annealing, local methods), a signal transform or an access to settings, the operation either manages without it and gives the result it gives with ample memory, or throws; it neither crashes nor hangs, and evaluates nothing after it has returned. "
  "With memory available again the same object works as a new one: the same reports and results, no transform buffers or open files left behind, a refused put changes no value, and loaded settings are complete.",
  ["fault_sequences", "schedules", "histories"], "every pattern of failing allocations (also of transform buffers), in caller and workers, followed by use with memory",
  "An allocation fails in no test, and what an interrupted operation leaves behind shows only in later ones.",
  ["src/optimization/genetic_algorithm/genetic_algorithm.cpp", "src/optimization/random_search.cpp", "src/optimization/continuous_optimizer.cpp", "src/dsp/transform/fast_fourier_transform.cpp", "src/dsp/transform/wavelet/fast_wavelet_transform.cpp", "include/k52/common/cache.h", "include/k52/common/settings_manager.inl"],
  [("transform buffers and plan", "src/dsp/transform/fast_fourier_transform.cpp"), ("state of an optimisation kept in the object", "src/optimization/genetic_algorithm/genetic_algorithm.cpp")],
  "injected allocation failures on seeded schedules, results paired with ample memory and recovery compared with a new object")
P("C25", "A genetic optimisation refuses what it cannot use, and stays usable",
  "A first population of a wrong size, or with individuals of another class, number or bounds, a population file that is missing or was saved with another population or chromosome size, and the wish to minimise are refused with an exception: before anything is evaluated or reported, and with the caller's parameters unchanged. "
  "Whatever was refused (or ran out of memory) before, in any order, the next request with usable settings gives on the same object the reports and result of a new one, and a first population that could not be taken over leaves the one set before in force.",
  ["histories", "inputs", "fault_sequences"], "every sequence of good and bad first populations, files and directions on one object, every failing allocation while a population is taken over",
  "Tests never set a first population on an algorithm.", ["src/optimization/genetic_algorithm/genetic_algorithm.cpp", "src/optimization/params/double_parameters_array.cpp", "src/optimization/params/double_parameter.cpp"],
  [("taking over and validating a first population, reading a file", "src/optimization/genetic_algorithm/genetic_algorithm.cpp")],
  "seeded histories of requests on the simulated disk with failing allocations; every accepted one paired with a new object")
P("C26", "Parameters hold exactly the values their chromosomes stand for",
  "For discrete parameters (integers over any range, reals, arrays of reals, composites of any nesting, also with parts of no genes) every chromosome of the right size is accepted and read back unchanged, different chromosomes stand for different values, a composite's chromosome consists of those of its parts in order, and constraints are met exactly if every part lies within its bounds. "
  "Reals lie within their bounds, both of which can be reached, spaced no wider than asked; a value within the bounds is kept as the nearest of them. Chromosomes or arrays of another size, values and limits that make no sense are refused and change nothing. Clones are equal and independent, also when several threads clone one object at the same time, or run out of memory doing so.",
  ["inputs", "schedules", "histories", "fault_sequences"], "every structure of parameters, bounds, precision, chromosome, sequence of settings, refusals and clones; one to four threads cloning one prototype; every failing allocation",
  "Tests try a few values of two kinds of parameters; shared state between clones shows only in threads.",
  ["src/optimization/params/int_parameter.cpp", "src/optimization/params/double_parameter.cpp", "src/optimization/params/double_parameters_array.cpp", "src/optimization/params/composite_discrete_parameters.cpp", "src/optimization/params/continuous_parameters_array.cpp", "src/optimization/params/const_chromosome_size_paremeters.cpp"],
  [("encoding of integers", "src/optimization/params/int_parameter.cpp"), ("grid of reals", "src/optimization/params/double_parameter.cpp"), ("parts of a composite", "src/optimization/params/composite_discrete_parameters.cpp")],
  "seeded structures, chromosomes, schedules and failing allocations with race detection, round-trip and reference-grid oracles")
P("C27", "A batch keeps all threads of the pool busy until its last task ends",
  "A batch given to a thread pool is performed with as many tasks at a time as there are workers and tasks left: no worker stays idle while a task of the batch waits, a long task holds up nobody but itself, and the call returns as soon as its last task ends, whatever the lengths of the tasks, the number of workers and the batches before. "
  "So does the evaluation of a generation of a genetic algorithm on its thread pool, and the runs of a random search with a local optimiser.",
  ["schedules", "histories", "configurations"], "every number of workers, batch of any size with tasks of any lengths, any histories of batches, timing of all threads",
  "Tests check results, never how long a batch takes or how many tasks run at a time; real time on a loaded machine cannot decide it, simulated time can.",
  ["src/parallel/thread/thread_worker_pool_templated.h", "src/parallel/thread/worker.h", "src/parallel/thread/thread_safe_queue.h", "src/optimization/genetic_algorithm/genetic_algorithm.cpp", "src/optimization/random_search.cpp"],
  [("giving tasks to workers", "src/parallel/thread/thread_worker_pool_templated.h, src/parallel/thread/thread_safe_queue.h")],
  "seeded schedules with tasks that take simulated time; makespan compared exactly with that of a work-conserving schedule")
P("C28", "Everything taken is given back however often it is used",
  "Pools, optimisers, transforms, settings, parameters and the pool factory can be used any number of times: the same history lived again and again, on the same objects or on new ones, with requests refused, objectives and tasks throwing and threads that cannot be started, needs no more memory each time (in a distributed job on no rank), and leaves no thread, open file or transform buffer behind once the objects are gone.",
  ["histories", "fault_sequences", "schedules"], "every history of uses, failures and refusals, repeated; every interleaving of the threads involved",
  "Tests use each object a few times and never look at what it keeps; a leak on a failing path fails no assertion.",
  ["src/parallel/thread/thread_worker_pool_templated.h", "src/parallel/thread/worker.h", "src/parallel/worker_pool_factory.cpp", "src/optimization/genetic_algorithm/genetic_algorithm.cpp", "src/optimization/random_search.cpp", "src/optimization/continuous_optimizer.cpp", "src/dsp/transform/fast_fourier_transform.cpp", "src/dsp/transform/wavelet/fast_wavelet_transform.cpp", "src/parallel/mpi/mpi_worker_pool.cpp", "include/k52/common/settings_manager.inl"],
  [("tasks and results of a batch", "src/parallel/thread/thread_worker_pool_templated.h"), ("transform buffers", "src/dsp/transform/fast_fourier_transform.cpp")],
  "seeded histories repeated under simulation with exact heap, thread, file and FFT accounting")
PROPS.sort(key=lambda p: p["id"])
