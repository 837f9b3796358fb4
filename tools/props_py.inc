BE = "qdd/qdd_backend.py"
PYREAL = "explicit-state model checking on the real code (Python package and extension rebuilt from the tree): "

prop("C09", "Every accepted gate acts on its qubits as defined",
     "A circuit made of any of the gates the backends accept, with any control state, on any ordered choice of qubits, leaves the statevector backend with exactly the state (global phase included) that the circuit's definition gives. This holds for every register layout, for arbitrary unitary matrices on several qubits, and with barriers and circuit-level global phases.",
     ["inputs", "programs"], "every accepted gate x control state x parameter grid x ordered placement on up to 4 (thorough 5) qubits, every ordered pair of placed gates on 3 qubits, register layouts, wide registers",
     "The tests run random circuits through a transpiler that removes most control states and placements; a swapped operand or open control needs a particular gate and placement.",
     [BE, "qdd/qdd_sv_backend.py", "qdd/bindings.cpp"], [("gate tables and _evaluate_circuit", BE), ("makeGate / makeTwoQubitGate / unitary bindings", "qdd/bindings.cpp")],
     ["statevector of the job's result"], "exhaustive over the stated gates, placements and pairs, against qiskit's gate matrices applied densely; global phase compared",
     PYREAL + "exhaustive enumeration of placed gates and gate pairs, oracle = dense reference", TABLES)

prop("C10", "Counts and memory are the measured bits, in their places",
     "For circuits whose measurements come last, the counts and the shot-by-shot memory of a job are distributed exactly as the measured qubits' joint distribution, every classical bit holding the value of the qubit last measured into it and unmeasured bits 0. Bits are written in the usual order (last bit first, registers that partition the bits separated by blanks), the number of shots is exact (given as whatever kind of integer), shots are independent of each other, memory and counts agree.",
     ["inputs", "schedules"], "every list of up to 3 (thorough 4) measurements on up to 3 qubits and 3 bits, every split of up to 5 (7) bits into registers, 1..5 shots, memory on and off, all values of all random draws",
     "The tests compare sampled frequencies of a few circuits with tolerance; a mis-mapped bit in one layout or a draw shared by two shots stays inside it.",
     [BE, "qdd/qdd_job.py"], [("clbit_final_values, sampled_values", BE), ("result header", BE + " _create_experiment_header")],
     ["get_counts, get_memory"], "all draws enumerated through a scripted random source: distributions are exact, not sampled",
     PYREAL + "exhaustive enumeration of measurement maps and of all random draws", TABLES)

prop("C11", "Mid-circuit measurement, reset and conditions follow the rules shot by shot",
     "For every circuit with measurements, resets and gates conditioned on bits or registers in any order, each shot's classical bits are distributed as the rules of quantum measurement give: measurements collapse the state and overwrite their bit, resets leave the qubit in 0, conditional operations (measurements included) act exactly when the bits have the value asked for. The state the statevector backend returns belongs to the last shot's bits.",
     ["programs", "schedules"], "every program of up to 4 (thorough 5) operations out of 20 on 2 qubits and 3 bits in two registers, longer programs of one shape, conditions on wide and shared registers, all values of all random draws",
     "The tests have a handful of conditional circuits on one register; condition bits, order of registers and collapse interact only in particular programs.",
     [BE], [("per-shot evaluation, condition test, reset", BE + " _evaluate_circuit"), ("stable_final_state", BE + " _validate_and_get_circuit_property"), ("measureOneCollapsing", "src/dd.cpp")],
     ["get_memory, get_statevector"], "all draws enumerated: distributions are exact (stabilizer states, every draw halves)",
     PYREAL + "exhaustive enumeration of programs and of all random draws, oracle = branching dense simulator", TABLES)

prop("C12", "Exact probabilities are the distribution of the measured bits",
     "With shots=None and measurements at the end, the reported probabilities are exactly the joint distribution of the classical bits (each holding the qubit last measured into it, unmeasured bits 0); a circuit without measurements gets the distribution of all its qubits. They sum to one, and batches and backends (counts and statevector) agree.",
     ["inputs"], "every list of up to 3 (thorough 4) measurements on up to 3 qubits and 4 bits over two dense states, transpiled and barrier-separated variants, batches, both backends; mid-circuit measurements and resets are explored too, where exactly the two recorded findings are accepted",
     "The tests only use measure_all; a permuted, partial or repeated measurement shows only with its own map.",
     [BE], [("probabilities and marginals", BE + " _evaluate_circuit"), ("probabilities", "src/dd.cpp")],
     ["result.data()['probabilities']"], "exhaustive over the stated measurement maps; known findings for mid-circuit measurement and reset",
     PYREAL + "exhaustive enumeration of measurement maps, oracle = dense marginals", TABLES)

prop("C13", "The Sampler returns each circuit's own distribution",
     "For every batch of circuits and parameter values given to the Sampler, also with circuits repeated, in any order, parametrized or measured in any way, over several calls, with circuits that resemble each other or that the caller changes in between, and at every optimization level of the transpilation options, the i-th result is the i-th circuit's distribution at its own parameters. Without shots the quasi-probabilities are exact; with shots their weights are multiples of 1/shots that sum to one and match the exact ones statistically; keys are the classical bits' values.",
     ["inputs", "histories"], "every batch of up to 3 out of 10 circuit/parameter items (quick: 2 and selected 3), every history of three calls of sizes 1, 2, 2; every pair (thorough: triple) out of 13 circuits that are alike; every sequence of up to 3 (4) out of 8 operations at levels 0 to 3",
     "The tests run single circuits; caching and grouping of experiments go wrong only for particular repetitions and orders in a batch.",
     ["qdd/qdd_sampler.py", BE], [("experiment cache and grouping", "qdd/qdd_sampler.py")],
     ["SamplerResult.quasi_dists, metadata"], "exhaustive over the stated batches and call histories",
     PYREAL + "exhaustive enumeration of batches and call histories, oracle = dense distributions", TABLES)

prop("C14", "The Estimator returns each observable's own expectation value",
     "For every batch of circuits, observables and parameter values given to the Estimator, also with repetitions, in any order, over several calls, with circuits and observables that resemble each other or that the caller changes in between, and at every optimization level of the transpilation options, the i-th value is the i-th observable's expectation in the i-th circuit at its own parameters, with the statistically right variance, in both evaluation modes. Identity terms, complex coefficients, several terms and groups of commuting terms are included; sampled and approximated values match within statistical accuracy.",
     ["inputs", "histories"], "every batch of up to 2 (smaller pool: 3) items, histories of 12 calls, pairs out of 9 circuits and 4 observables that are alike, every sequence of up to 3 (4) out of 8 operations at levels 0 to 3, four sets of classical registers, every Pauli string on 3 and 4 qubits, up to 210 terms on up to 20 qubits, grouping on and off, both modes, with and without shots",
     "The tests estimate single observables; pairing results with parameters and groups fails only for particular batches.",
     ["qdd/qdd_estimator.py", BE], [("pairing of experiments, grouping of Paulis", "qdd/qdd_estimator.py")],
     ["EstimatorResult.values, metadata"], "exhaustive over the stated batches; exact values to 1e-9, sampled ones within 7 standard deviations under a fixed draw sequence",
     PYREAL + "exhaustive enumeration of batches and call histories, oracle = dense expectation values", TABLES)

prop("C15", "Requests that cannot be evaluated fail cleanly and leave nothing behind",
     "A request with an unsupported instruction (control flow and untranspiled gates included), no measurement where one is required, too many qubits, a shot number out of range (given to the run or set on the backend), arguments or options of the wrong type, or parameter bindings that do not match the circuits gives a failed job with a message and without results, whether or not the part at fault would have taken effect, and whatever its place in a batch. The Sampler and the Estimator refuse what they cannot evaluate with an error that names the reason. No request, good or bad, affects the outcome of later ones; options given to one run apply to that run only, options set on a backend to all its later runs.",
     ["histories", "inputs"], "every history of up to 2 (thorough 3) requests out of 46 (42 bad), every bad circuit at every position of a batch, option values at their limits in every order",
     "The tests submit one bad request at a time and check only that; leftovers in backend state show in the next request.",
     [BE, "qdd/qdd_failed_job.py", "qdd/qdd_job.py"], [("run / _validate_run_options / _evaluate_circuit", BE), ("failed job", "qdd/qdd_failed_job.py")],
     ["result.success, status, results; counts of later jobs"], "every history of the stated length",
     PYREAL + "exhaustive enumeration of request histories", TABLES)

prop("C16", "Equal seeds give equal shots",
     "A job with a simulator seed gives the same shots, in the same order, whenever it is run: in the same process after any other jobs, seeded or not, or in another process, for stable and mid-circuit circuits, batches, the statevector backend, the Sampler and the Estimator, and wherever the seed is given, with the documented precedence. Different seeds give different shots, unseeded jobs do not repeat each other.",
     ["histories"], "9 seeded requests after every history of up to 2 (thorough 3) of 13 other jobs, 16 seeds, a second process; seeds 0, 1 and 7 in every combination of the places they can be given in",
     "The tests never set a seed; state carried over from earlier jobs shows only after particular histories.",
     [BE, "qdd/bindings.cpp"], [("seed_simulator", BE), ("random engine", "qdd/bindings.cpp")],
     ["get_memory, quasi_dists, values"], "every history of the stated length",
     PYREAL + "exhaustive enumeration of job histories", TABLES)

prop("C17", "A merged circuit is its operator, alone or used as a gate",
     "Merging a circuit gives exactly the circuit's unitary, global phase included, however often matrices are collected on the way; what has no unitary meaning (resets, conditions, control flow, unsupported gates) is refused. A merged operator used as a gate acts as that unitary on the ordered qubits it is given, on registers of any width, repeatedly, between other gates and inside further merged circuits.",
     ["programs", "inputs"], "every accepted gate at every placement, every program of up to 3 placed gates on 2 qubits and 2 (thorough 3) on 3 under three collection policies, 9 merged operators on every ordered choice of up to 4 (5) qubits, every pair of them merged again",
     "The tests merge whole-register circuits in qubit order only.",
     [BE, "qdd/qdd_gate.py", "src/dd.cpp"], [("merge_circuit", BE), ("QDDGate", "qdd/qdd_gate.py"), ("gc_mat", "src/dd.cpp")],
     ["getEigenMatrix of the operator, statevector of jobs"], "exhaustive over the stated circuits; one known finding (operators held across an automatic collection)",
     PYREAL + "exhaustive enumeration of circuits, placements and collection points, oracle = dense unitaries", TABLES)


MTF = ["src/dd.cpp", "src/task.cpp", "include/table.hpp", "include/cache.hpp", "include/task.h"]
prop("C18", "Gates computed by several threads act as by one",
     "When gates are applied, and vectors and operators multiplied and added, by fibers spread over several worker threads, the result is exactly that of one thread, under every schedule of the workers and however fibers move between them. No two threads ever touch shared memory in unordered conflicting ways, shared structure stays canonical (equal parts are one part), nothing is used after it was freed, and every operation ends. The same holds for sequences with collections and measurements in between.",
     ["schedules", "inputs", "histories"], "2 to 3 (thorough 4) workers, four base schedules: one gate on 1 qubit under every schedule with up to 2 (3) changed decisions, on 2 and 3 qubits with 1 (2), up to 6 qubits with none; sequences of 2 to 3 (4) operations",
     "A test sees the few schedules the operating system happens to pick; a missing lock or a moved fiber shows in almost none of them.",
     MTF, [("mv_multiply2 / vv_add2", "src/dd.cpp"), ("CHashTable::lookup", "include/table.hpp"), ("per-thread AddCache / MulCache", "include/cache.hpp")],
     ["amplitudes, canonicity of the result, order of all memory accesses"], "all schedules within the stated number of changed decisions of each program; data races by vector clocks on each of them",
     REAL + "bounded exhaustive exploration of schedules (fibers and workers owned by the explorer, every memory access observed), oracle = dense reference, vector-clock race detection", TABLES)

prop("C19", "Worker threads start, stop and start again safely",
     "Worker threads can be started, with any number of threads, used, stopped and started again any number of times: exactly the requested number run, stopping ends all of them and always returns, starting never ends the process, and work gives the right result before, between and after. A job with a number of threads gives what it gives without, and leaves no thread running and the process able to end, whether it succeeds or is refused.",
     ["histories", "schedules"], "all histories of up to 4 (thorough 5) starts (1 to 4 threads), stops and gate programs under three base schedules, basic ones with up to 2 changed decisions; all histories of 2 (3) jobs of 20 kinds, in the main thread or one of their own",
     "The tests start threads once per process; lost wake-ups, second starts and failing jobs never occur.",
     ["src/task.cpp", "include/task.h", "qdd/bindings.cpp", "qdd/qdd_backend.py"], [("Scheduler", "src/task.cpp"), ("my_ws", "src/task.cpp"), ("init_mt / terminate_mt", "qdd/bindings.cpp"), ("_run_experiment", "qdd/qdd_backend.py")],
     ["number of threads, return of stop, results of gates and jobs, end of the process"], "all histories of the stated length under base schedules; all schedules within the stated number of changed decisions for basic ones",
     REAL + "bounded exhaustive exploration of schedules of the real threads (run one at a time by the explorer) and enumeration of histories, oracle = dense reference", TABLES)

MPIC = "schedules and messages owned by the explorer (stand-in for Boost.MPI), validated by the same programs on real MPI processes"
prop("C20", "Distributed gates act as they do in one process",
     "With the vector spread over 1, 2, 4 or 8 MPI ranks, applying a gate by either distributed routine (ring or broadcast) gives on every rank exactly that rank's part of the operator times the vector, for every gate, every placement of targets and controls on local and distributed qubits, and however the amplitudes are spread, zero parts included. The starting states and the printed vector are the right ones. Whatever the order in which ranks run and messages are delivered or buffered, the result is the same, no rank waits forever, and every message is received.",
     ["inputs", "schedules", "histories"], "2..4 (thorough 6) qubits on 1, 2, 4, 8 ranks: every gate shape on every placement and bound, every sequence of 3 of 17 operations, 6 spreads of the amplitudes; programs of 1 to 2 gates under every schedule",
     "The tests run a few circuits on 2 and 4 ranks under the operating system's schedule; wrong parts or dropped gates show only for particular placements and spreads.",
     DD, [("mv_multiply_MPI / mv_multiply_MPI_bcast3", "src/dd.cpp"), ("getMPIGate", "src/dd.cpp"), ("makeZeroStateMPI / makeOneStateMPI / printVectorMPI", "src/dd.cpp")],
     ["amplitudes of each rank's part"], "exhaustive over the stated programs; over all schedules of the short ones",
     REAL + "exhaustive exploration of programs and of message schedules (8 copies of the engine as ranks in one process), oracle = dense reference; conformance of the message model by running the programs under real MPI", TABLES)

prop("C21", "Distributed measurement and probabilities agree with the whole vector",
     "With the vector spread over MPI ranks, the probability of a qubit, the probabilities of all basis states and the norm are those of the whole vector on every rank, whatever ranks hold zero parts. A measurement of one qubit or of all gives the same outcome on every rank, with the Born rule's distribution over the random draws, and measuring one qubit leaves the vector collapsed onto the outcome and normalized, on local and distributed qubits alike, under every order of ranks and messages.",
     ["inputs", "schedules", "histories"], "1, 2, 4, 8 ranks: every sequence of 2 to 3 (thorough 3 to 4) gates and measurements for 6 spreads of the amplitudes and 5 draw values; exact outcome distributions of one and two measurements by bisection of the draws; short programs under every schedule",
     "The tests look at a few outcomes of one random seed on 2 or 4 ranks.",
     DD, [("measureOneCollapsingMPI / measureOneMPI / measureAllMPI", "src/dd.cpp"), ("probabilitiesMPI / adjust_weight", "src/dd.cpp")],
     ["returned outcomes and probabilities on each rank, each rank's amplitudes afterwards"], "exhaustive over the stated programs and draws",
     REAL + "exhaustive exploration of programs, draws and message schedules, oracle = dense reference; conformance under real MPI", TABLES)

prop("C22", "States sent to another rank or saved to a file arrive unchanged",
     "A state that one MPI rank sends and another receives (blocking), or that is saved to a file and loaded again, by the same process or another, has exactly the same amplitudes, weight of the whole included; loading in the process that still holds the state gives the same diagram. Moved states behave like others under gates, collections and further moves.",
     ["inputs", "histories", "schedules"], "1, 2, 4, 8 ranks: 6 spreads x 12 preparing operations x save, load of another rank's file, every ordered pair of ranks x 3 following operations or a second move; transfers under every schedule",
     "The tests turn one state into its table and back in one process; no test sends a state, goes through a file or carries on with what arrived.",
     DD, [("save_binary / load_binary", "src/dd.cpp"), ("send_dd / receive_dd", "src/dd.cpp"), ("vNode_to_vec / vec_to_vNode", "src/dd.cpp")],
     ["amplitudes after the move, identity of the loaded diagram"], "exhaustive over the stated programs",
     REAL + "exhaustive exploration of programs and message schedules, oracle = dense reference; conformance under real MPI", TABLES)

prop("C23", "The engine's Python module does what it says, and shows states as they are",
     "Every function of the Python module that makes a gate or a matrix returns the operator its name stands for on the qubits it is given, controls included; names that are not gates are refused. Whatever sequence of gates, merged operators, collections, global phases and measurements a program calls, getVector, getEigenVector, getEigenMatrix, probabilities and the following outcomes are those of the state it has reached, and objects not passed to a measuring call stay what they were. The printed vector (full and sparse), the printed matrix and the drawing of a state or operator show exactly that state or operator, and the number of nodes reported is that of the drawing and the least possible.",
     ["inputs", "histories"], "every gate-making function at every placement of targets and controls up to 4 (thorough 5) qubits; every sequence of up to 4 (5) calls of 14 to 17 kinds on 1 to 3 qubits with every outcome of the draws; every sequence of up to 3 (4) gates on 1 to 4 qubits printed and drawn; states with up to two amplitudes on 29 to 100 qubits, every set of up to 2 (3) ones at the places where integers end",
     "The tests call a handful of these functions on one placement each and never read back what is printed or drawn.",
     ["qdd/bindings.cpp", "src/dd.cpp", "include/dd.h"], [("PYBIND11_MODULE", "qdd/bindings.cpp"), ("makeGate by name", "qdd/bindings.cpp"), ("genDot / printVector / printVector_sparse / printMatrix", "src/dd.cpp")],
     ["returned objects read with getVector / getEigenMatrix / probabilities, standard output, drawings"], "exhaustive over the stated calls and sequences",
     REAL + "exhaustive enumeration of calls, sequences and draws, oracle = dense reference")

prop("C24", "Distributed jobs give the results of single-process ones",
     "A job run on several MPI ranks (use_mpi), with ring or broadcast exchange and with no, stepwise (v1) or fused (v2) swapping of qubits, leaves the same state and the same exact probabilities on every rank as the circuit of rank 0 run in one process, global phase, open controls, matrix gates and merged-operator gates included; its sampled bits have the same distribution, measurements, resets and conditions in the middle included, and are the same on every rank. A job that is refused is refused on every rank, no rank waits for ever, and later jobs are not affected.",
     ["inputs", "histories", "configurations"], "1, 2, 4, 8 ranks, 2 to 5 qubits: every sequence of 1 to 3 (thorough 1 to 4) of 6 to 90 gates at every placement after a state without symmetries, in all 6 modes; every sequence of up to 2 to 3 (4) of 11 to 19 measuring, conditional and gate items with every value of all draws of all ranks; every history of 2 (3) of 6 kinds of jobs",
     "The one test prints the result of a three-qubit circuit and needs mpi4py and an MPI build.",
     ["qdd/qdd_backend.py", "qdd/bindings.cpp", "src/dd.cpp"], [("_evaluate_circuit / do_swap_v1 / do_swap_v2 / restore_swap", "qdd/qdd_backend.py"), ("_getVectorMPI and the other *MPI functions", "qdd/bindings.cpp")],
     ["state, probabilities, counts and memory of the results on every rank"], "exhaustive over the stated circuits, modes, draws and histories",
     REAL + "exhaustive exploration of circuits, modes, draws and job histories, one process per rank running the real package over message passing of our own (deadlocks, mismatched and left-over messages are detected), oracle = dense reference")

prop("C25", "Memory comes back: repeated work needs no more of it",
     "Whatever sequence of calls of the Python module, jobs or primitive runs a program repeats, the memory in use stops growing after a few repetitions (after a collection where the program collects), refused calls and jobs included; and the memory a job leaves behind does not grow with its number of gates or shots beyond the collection threshold as long as its gates are from a fixed set.",
     ["histories"], "every history of up to 2 to 3 (thorough 3 to 4) of 20 to 23 kinds of calls on 1 to 3 qubits, with and without collections; of 1 to 2 (3) of 21 kinds of jobs; of 1 to 2 (3) kinds of estimator and sampler runs; jobs and mergings of every sequence of 2 (3) of 9 kinds of blocks, in doubling lengths",
     "The tests run each thing once and never look at memory.",
     ["qdd/bindings.cpp", "src/dd.cpp", "include/table.hpp", "qdd/qdd_backend.py"], [("gc / gc_mat", "src/dd.cpp"), ("CHashTable::getNode / returnNode", "include/table.hpp"), ("_getVector", "qdd/bindings.cpp")],
     ["bytes in use of the process's allocator after each repetition"], "exhaustive over the stated histories",
     REAL + "exhaustive enumeration of histories, each repeated to a fixed point of the allocator's bytes in use")

prop("C26", "Jobs in flight at the same time do not disturb one another",
     "Sampler and Estimator jobs that run at the same time, on the same primitive or others, and backend runs, transpilations and mergings of circuits that different threads of a program do at the same time on objects of their own or a shared backend, give exactly what each gives alone: same results, same errors, seeded bits included, whatever collections happen; none waits for ever. (One primitive called by two threads at once, the raw engine module, and objects of the engine kept in results are not claimed.)",
     ["schedules", "inputs", "histories"], "13 kinds of jobs in all pairs submitted by one thread, and in pairs each submitted by a thread of its own (quick: those with a backend's, and 4 kinds of primitives'), 5 (thorough 8) kinds in triples, 3 kinds transpiled, 5 with worker threads of the engine; every schedule with one deviation at the first and last time a thread reaches a line (thorough: one preemption anywhere and every choice where a thread has to wait; three pairs with two deviations)",
     "The tests wait for each job before the next is submitted and use one thread.",
     ["qdd/qdd_sampler.py", "qdd/qdd_estimator.py", "qdd/qdd_backend.py"], [("Sampler._run", "qdd/qdd_sampler.py"), ("Estimator._run", "qdd/qdd_estimator.py"), ("QddBackend._run_internal / merge_circuit", "qdd/qdd_backend.py")],
     ["results and errors of every job, deadlocks"], "exhaustive over the stated schedules",
     "stateless model checking of the real package under a controlled scheduler: real threads, one runs at a time; every line of the package and every operation on locks and futures is a scheduling point; preemption-bounded exhaustive exploration, oracle = the job alone")
