"""Which harnesses decide which property."""
SIM = ["lib/sim"]           # simulated MPI (mpi.h)
QL = ["lib/sim", "lib/ql"]  # + stand-in tensor library
CHECKS = {}
def C(id, technique, level, note, rule, bounds, parts, assumptions=()):
    CHECKS[id] = dict(technique=technique, level=level, note=note, rule=rule, bounds=bounds, parts=parts, assumptions=list(assumptions))
def part(name, src, **k):
    d = dict(name=name, src=src); d.update(k); return d

C("C01", "exhaustive operation-sequence exploration of the real container against a reference grid", "model_checking",
  "Every operation sequence up to the bound is executed on the real container under ASan/UBSan with instrumented elements and compared cell by cell with a reference model after every step; nothing is claimed for longer histories or other shapes.",
  "a case is one operation history on two grids; distinct = distinct reached model states",
  {"quick": "all histories of length <= 4 over 58 operations, plus merged breadth-first search to depth 5 (capped per shard), shapes up to 5x5 for structure",
   "thorough": "all histories of length <= 5, merged breadth-first search to depth 7 (capped per shard)"},
  [part("duo", "c01_grid.cpp", shards=4), part("ten", "c01_grid.cpp", flags=["-DGRID_TEN"], shards=4)])
MC = "model_checking"
C("C03", "exhaustive exploration of scheduler query/clone histories on the real schedulers against the documented schedule", MC,
  "Every history of queries, clones and Step calls up to the bound is executed on the real schedulers and compared with the documented closed form or recurrence.",
  "a case is one query (stateless schedulers) or one history (PlateauLR); distinct = distinct (parameters, value/state) reached",
  {"quick": "all histories of length <= 5 over 7 energies and 3 clone/step operations for 16 parameter sets, all 2^14 better/not-better histories; stateless: ~1500 parameter sets x 45 iterations x 6 energies and all query pairs",
   "thorough": "length <= 6, all 2^18 better/not-better histories"}, [part("sched", "c03_schedulers.cpp", shards=8)],
  ["step_size = 0 and decay_steps = 0 are outside the documented domain"])
C("C04", "exhaustive exploration of update/reset/copy histories on the real tracker against the documented recurrence", MC,
  "Every history up to the bound is executed on the real tracker and compared with an extended-precision evaluation of the recurrence.",
  "a case is one history; distinct = distinct statistics reached",
  {"quick": "all histories of length <= 4 over 10 operations for windows {1,2,3,4,10,50,1000} (length 5 for the default window); every window 1..300 with all 64 two-valued histories of length 6",
   "thorough": "length <= 5 plus merged search to depth 6; every window 1..3000"}, [part("ema", "c04_spike.cpp", shards=8)],
  ["a window of length 0 (smoothing factor 2) is outside the documented domain"])
C("C10", "exhaustive enumeration of all random draws of the real kernel on a grid resolving its decision thresholds", MC,
  "For integer-proportional weight vectors the transition matrix of the real kernel is obtained exactly by enumerating every random draw; stationarity is then checked exactly. Badly scaled weights are checked for validity only.",
  "a case is one kernel call with one draw sequence; distinct = distinct transition rows",
  {"quick": "all weight vectors with entries 0..6 for up to 3 states (5 scales), 0..5 for 4, 0..3 for 5, 0..2 for 6, 0/1 for 8 states; 64-bit and 32-bit generators; extreme draws on badly scaled weights",
   "thorough": "entries 0..7 for 3 states, 0..6 for 4, 0..5 for 5, 0..4 for 6, 0..2 for 9 states"}, [part("suwa", "c10_suwa_todo.cpp", shards=8)],
  ["the random engine is replaced by an enumerating engine of the same interface"])
C("C20", "exhaustive enumeration of amplitude lists on the real function against an independent evaluation and metamorphic relations", MC,
  "Every list over the alphabet up to the bound is evaluated; sign flips and scalings of each list are compared with one another.",
  "a case is one list (or one transformed list); distinct = distinct summaries",
  {"quick": "all real lists of length <= 5 over 9 values, all complex lists of length <= 4 over 10 values, all sign patterns of each, 4 scales", "thorough": "lengths 6 and 5"},
  [part("psi", "c20_psi.cpp", shards=8)], ["amplitudes below the function's absolute floor (1e-14) are compared with the documented behaviour, not required to be scale invariant"])
C("C21", "exhaustive operation-sequence exploration of the real container against a reference matrix", MC,
  "Every operation history up to the bound is executed under ASan/UBSan and every entry and every out-of-range access is checked.",
  "a case is one operation history; distinct = distinct contents reached",
  {"quick": "all histories of length <= 3 over 21 operations, merged search to depth 4; all shapes up to 7x7", "thorough": "length <= 4, merged search to depth 5"},
  [part("real", "c21_obs.cpp", shards=4), part("cplx", "c21_obs.cpp", flags=["-DELT=std::complex<double>"], shards=4)])
C("C24", "exhaustive enumeration of paths and initial directory trees, executed on a scratch file system against a step-by-step oracle", MC,
  "Every path over the component alphabet is tried on every initial tree in a scratch directory and the whole tree is compared before and after.",
  "a case is one call on one tree; distinct = distinct (function, result, tree size)",
  {"quick": "5 initial trees x all paths of up to 3 components from {a,b,f,l,k,n,..} with slash variants x absolute/relative x 3 functions", "thorough": "all 40 trees, up to 4 components"},
  [part("fs", "c24_fs.cpp", shards=8)], ["permission failures are not explored (checks run as root)"])
C("C22", "exhaustive exploration of builder, copy and factory histories on the real parameter objects against a field-by-field reference", MC,
  "Every sequence of builder calls up to the bound (in every order), every copy/move mode for every subset of set fields, and every factory over small argument sets is executed and compared field by field.",
  "a case is one builder history, one copy of one field subset, or one factory call; distinct = distinct resulting parameter sets",
  {"quick": "all builder histories of length <= 3 over 21 calls; all 2^11 field subsets x 8 copy/move modes; all factories", "thorough": "builder histories of length <= 4, merged search to depth 5"},
  [part("params", "c22_params.cpp", shards=8)])
C("C15", "exhaustive enumeration of sample sets, binnings and rank layouts on the real statistics code over a simulated MPI, all message-matching choices explored", MC,
  "Every sample set over the alphabet, every split over ranks and every matching choice of the simulated MPI is executed on the real gathering code and compared with a directly evaluated mean/standard error.",
  "a case is one statistics call (serial) or one complete run of all ranks; distinct = distinct results",
  {"quick": "see counters", "thorough": "larger alphabets and rank counts"},
  [part("stats", "c15_stats.cpp", inc=QL, shards=8)], ["MPI is a simulated library with the semantics of the standard (eager and rendezvous sends both explored)"])
C("C18", "exhaustive enumeration of presence patterns, lattices and operation histories on the real wave-function class against component-wise arithmetic", MC,
  "The real SplitIndexTPS/TPS code runs on a dense tensor stand-in; every pattern of absent components on small lattices, every operation and every register history up to the bound is compared entry by entry; wave-function sums are compared amplitude by amplitude over all configurations.",
  "a case is one operand pattern or one history; distinct = distinct operand contents",
  {"quick": "all presence patterns of up to 8 components (unary), all pairs of patterns of up to 4 components (binary), all bond-dimension assignments {1,2,3} up to 6 bonds, all lattices up to 4x4 with uniform bonds, histories of length 3 over 9 operations and 3 registers, 7 sum variants x 5 (7 complex) coefficients squared",
   "thorough": "up to 12 / 6 components, all masks at history length 3"},
  [part("real", "c18_sitps.cpp", inc=QL, shards=8), part("cplx", "c18_sitps.cpp", inc=QL, flags=["-DELT=std::complex<double>"], shards=8)],
  ["tensors are a dense bosonic stand-in for the TensorToolkit library (single quantum-number sector)"])
C("C25", "exhaustive enumeration of all outcomes of the random engine driving the real generator, plus all small contents for the queries", MC,
  "The random engine is replaced by an enumerating engine; every outcome on a grid that resolves every branch of the shuffle is executed and counted.",
  "a case is one generated or constructed configuration; distinct = distinct contents",
  {"quick": "all occupancy vectors (valid and invalid sums) on all lattices up to 5 sites, all arrangements reached; all configurations of Random(dim) up to 20000; conservation on lattices up to 4x4; all contents over {0,1,5} up to 6 sites, all truncations of their stream form, all subsets of missing cells",
   "thorough": "up to 6 sites, 300000 configurations"}, [part("cfg", "c25_config.cpp", inc=QL, shards=8)],
  ["std::mt19937 and std::random_device are replaced by an enumerating engine of the same interface"])
C("C26", "exhaustive enumeration of pairs, addressing styles and write histories on the real table against a full matrix", MC,
  "Every pair of every lattice up to the bound is written and read in every style, all other entries compared after each write.",
  "a case is one write with a complete read-back, or one history; distinct = distinct contents/lattices",
  {"quick": "all lattices up to 7x7 (all pairs), single rewrites up to 16 sites, histories of length 3 (2 for 4 sites)", "thorough": "up to 9x9, histories of length 4 (3)"},
  [part("jas", "c26_jastrow.cpp", inc=QL, shards=4)])
C("C02", "exhaustive fault enumeration (every open, every byte at which the disk fills, every close, every read; every truncation and removal of every file) around the real save/load code", MC,
  "File calls of the real code are interposed; for each content and each fault point the save must either report failure (keeping the in-memory data) or be loadable exactly, and every damaged directory must fail to load or load exactly.",
  "a case is one save under one fault, or one load of one damaged directory; distinct = distinct contents",
  {"quick": "TenMatrix: all presence patterns up to 6 cells; wave functions and configurations on lattices up to 3 sites per side, open/periodic; every single fault point; every truncation length of every metadata file; every missing file; every wrong target shape",
   "thorough": "larger lattices and all byte positions of tensor files"},
  [part("tenmatrix", "c02_tenmatrix.cpp", libs=["-ldl"], shards=4), part("states", "c02_states.cpp", inc=QL, libs=["-ldl"], shards=8)],
  ["tensor payloads are written by a stand-in tensor library with the TensorToolkit stream interface (header, shape, raw data; throws or sets failbit on short data)",
   "metadata without a boundary-condition field is the documented legacy format and loads as open boundary"])
C("C17", "exhaustive enumeration of states, receivers, rank counts and message-matching/buffering choices on the real transfer code over a simulated MPI", MC,
  "The real send/receive/broadcast code runs with every rank a coroutine of a simulated MPI; every matching choice of wildcard receives and both buffered and synchronous sends are explored; receivers start from every prior content.",
  "a case is one complete run of all ranks under one schedule; distinct = distinct transferred contents",
  {"quick": "2-3 ranks, lattices up to 2x3, all roots, all prior receiver contents of the harness", "thorough": "up to 4 ranks"},
  [part("real", "c17_transfer.cpp", inc=QL, shards=8), part("cplx", "c17_transfer.cpp", inc=QL, flags=["-DELT=std::complex<double>"], shards=8)],
  ["tensors travel through a stand-in tensor library (same call interface); configuration receivers have the right size beforehand, as documented",
   "MPI is a simulated library with the semantics of the standard"])
C("C16", "exhaustive enumeration of small linear systems, solver parameters, operator faults, rank splits and message orders on the real solver", MC,
  "Every system over the entry alphabets (definite, indefinite, singular, badly scaled, real and complex) is solved by the real code under every parameter set; each verdict is compared with the directly computed residual, smallest eigenvalue and textbook iterates; the distributed solver runs on a simulated MPI under every arrival order with buffered and unbuffered sends.",
  "a case is one solve (one schedule of one solve when distributed); distinct = distinct (reason, iterations, size, residual magnitude)",
  {"quick": "real n<=3 (518 matrices) and complex Hermitian n<=3 (72 matrices), right-hand sides over 3-4 values per component, up to 9 initial guesses, 101 parameter sets, 4 scales; NaN/Inf in every component of each of the first 6 operator products; 1-3 ranks x 3 splits x 9 parameter sets, all arrival orders; 4-6 ranks in one buffered and one unbuffered schedule",
   "thorough": "all parameter sets for n = 3, 4 ranks"}, [part("cg", "c16_cg.cpp", inc=QL, shards=8)],
  ["the vector type and its MPI hooks are the harness's own, as the solver's documented interface asks",
   "tolerances below the attainable accuracy and restart threshold 0 are checked for truthfulness only"])
C("C19", "exhaustive enumeration of sample sets, rank layouts and send modes on the real SR/MinSR code over a simulated MPI and a simulated block-cyclic ScaLAPACK", MC,
  "Every sample set over the alphabet (including absent components) is pushed through the real Gram-matrix, covariance-product and eigensolve code on 1-6 simulated ranks with buffered and unbuffered sends; results are compared with the centred inner products and with the pseudo-inverse of matrices of known spectrum.",
  "a case is one complete run of all ranks; distinct = distinct (layout, spectrum family, route) and sample sets",
  {"quick": "all 5^N sample sets for N <= 4 samples, strided beyond, 1-5 ranks; all eigenvalue lists of length <= 4 over 7 values x 24 cutoffs; solves of size 1..8 on 1-4 ranks x 15 spectra x 5 cutoffs, size 60..132 on 2-6 ranks (several block-cyclic blocks); automatic route at 5000/5001 samples",
   "thorough": "denser strides, more spectra"},
  [part("real", "c19_minsr.cpp", inc=QL, shards=8), part("cplx", "c19_minsr.cpp", inc=QL, flags=["-DELT=std::complex<double>"], shards=8)],
  ["LAPACK and ScaLAPACK/BLACS are stand-ins (Jacobi eigensolver, documented block-cyclic layout)", "every rank holds the same number (at least one) of samples, as the code requires"])
C("C23", "exhaustive enumeration of signal points (between operations, inside the collective, and at every machine instruction of the query), signals, ranks and reset histories on the real guard", MC,
  "Each rank runs its own copy of the real guard (one namespace per rank); real signals are raised at every enumerated point, including every single-stepped instruction of the stop query; the answers of all ranks are compared with the set of signals delivered so far.",
  "a case is one history of queries, signals and resets on all ranks; distinct = distinct answer sequences",
  {"quick": "1-3 ranks, 3 queries, every signal point and pairs of points, two signals, resets at every position; every instruction of the query and of the handler-free path on one rank", "thorough": "4 ranks, 4 queries, triples of points"},
  [part("sig", "c23_signal.cpp", inc=QL, srcs=["checks/c23_r0.cpp", "checks/c23_r1.cpp", "checks/c23_r2.cpp", "checks/c23_r3.cpp"], shards=8)],
  ["signals before Register take the default action and are outside the property"])
OPT_ASSUME = ["tensors are a dense stand-in for the TensorToolkit library", "the evaluator is the harness's own, answering from an enumerated script, as IterativeOptimize's documented interface allows"]
def opt_parts(src, cplx=True):
    r = [part("full", src, inc=QL, san=False, shards=8), part("san", src, inc=QL, flags=["-DVP_SMALL"], opt="-O1", shards=8)]
    if cplx: r.append(part("cplx", src, inc=QL, san=False, flags=["-DVP_SMALL", "-DELT=std::complex<double>"], shards=8))
    return r
C("C05", "exhaustive exploration of evaluator answer histories on the real optimisation loop against a reference loop", MC,
  "Every history of evaluator answers over the alphabet (including answers exactly at a threshold) is fed to the real loop; every evaluated state, recovery action, statistic and learning rate is compared with a reference implementation of the documented loop, and every run must terminate.",
  "a case is one complete optimisation run; distinct = distinct (events, iterations, states, learning rates)",
  {"quick": "4 iterations, all answer histories of length 5-6 over 9 answers for 10 recovery configurations of SGD, length 5 for Adam/AdaGrad/momentum/schedulers, all histories of length 5 over 5 answers for SR/MinSR (with selector and scheduler variants); histories continued with a benign or a repeated last answer",
   "thorough": "lengths 6-7 (SGD), 6 (others)"}, opt_parts("c05_spike_loop.cpp"),
  OPT_ASSUME + ["accumulators (momentum, moments, curvature pairs) after a rollback are not compared: their value is not documented"])
C("C06", "exhaustive exploration of answer histories, rank counts, message orders and send modes on the real optimisation loop over a simulated MPI", MC,
  "Every answer history is run on one rank and then on 2 and 3 simulated ranks with buffered and unbuffered sends; mismatched collectives, deadlocks, unreceived messages, differing exits and any difference of the master's result from the single-rank run are reported.",
  "a case is one complete run of all ranks under one schedule; distinct = distinct outcomes",
  {"quick": "2-3 ranks, histories of length 3-5 over 3-5 answers for SGD, Adam, AdaGrad, L-BFGS, SR, MinSR with spike recovery, schedulers, selectors, checkpoints, stop callbacks and line searches", "thorough": "histories of length 4-7"},
  opt_parts("c06_ranks.cpp", False), OPT_ASSUME + ["MPI is a simulated library with the semantics of the standard", "for SR on 3 ranks the arrival order inside the linear solver is explored fully only for one-iteration solves (C16 explores it in general)", "user callbacks give the same answer on all ranks"])
C("C07", "exhaustive exploration of answer histories and stopping/checkpoint/log configurations on the real optimisation loop, with the written files read back", MC,
  "Every answer history is run through the real loop for every stopping-rule combination; trajectories, lowest state, callbacks and stop decision are compared with a reference loop; checkpoint directories are loaded back and JSONL/CSV files parsed and compared.",
  "a case is one complete optimisation run with its files; distinct = distinct outcomes",
  {"quick": "all histories of length <= 5 over 7 answers (incl. NaN and exact ties) for 4 iteration limits x 2 energy x 2 gradient tolerances x 3 patiences x stop requests; files: histories of length 3-4 over 7 answers, 4 checkpoint intervals, open/periodic, all algorithms", "thorough": "lengths 6 / 5"},
  opt_parts("c07_report.cpp"), OPT_ASSUME)
C("C08", "exhaustive exploration of gradient histories and hyper-parameters on the real update rules against independent closed formulas", MC,
  "Every gradient history over the alphabet is run through the real loop for every hyper-parameter combination; each state at which the loop evaluates next is compared with the documented formula evaluated independently on plain vectors (L-BFGS two-loop recursion, strong-Wolfe acceptance, dense solves for the natural gradient).",
  "a case is one run over one gradient history; distinct = distinct (states, learning rates)",
  {"quick": "histories of length 5 over 4-5 gradients; 64 SGD, 6 AdaGrad, 36 Adam, 16 SR, 2 MinSR, 12 L-BFGS configurations, 288 smooth-function line-search runs; second runs on the same optimiser object", "thorough": "length 6"},
  opt_parts("c08_updates.cpp"), OPT_ASSUME + ["Adam/AdaGrad use a tiny epsilon: how the tensor library's ElementWiseInv treats epsilon is outside this repository", "normalised SR with a zero gradient is undefined and excluded"])
C("C09", "exhaustive exploration of trial-answer histories on the real step selectors against the documented selection rule", MC,
  "Every history of answers (ties, improvements of exactly one error bar, missing error bars, NaN/Inf trials) is fed to the real loop for every selector configuration; trial states, chosen step, applied update and rejections are compared with the documented rule.",
  "a case is one complete run; distinct = distinct (states, learning rates)",
  {"quick": "histories of length 5-9 over 3-5 answers; initial selector with 0-5 candidates, periodic selector every 0-3 steps at 6 phase ratios, both, with momentum/Nesterov/decay/clipping, SR (normalised or not), MinSR, energy-only trials", "thorough": "one or two steps longer"},
  opt_parts("c09_selectors.cpp"), OPT_ASSUME)
TNS = ["tensors are a dense bosonic stand-in for the TensorToolkit library (single quantum-number sector; contraction, SVD and QR written independently)"]
GA = ["-D_GLIBCXX_ASSERTIONS"]
C("C12", "explicit-state exploration of all reachable cache states of the real contractor, every cached boundary and every query compared with exact summation", MC,
  "Breadth-first closure over (stack depths, configuration) under growth, shifts, deletions, local updates and global replacement; in every state all cached boundaries are expanded and compared entry by entry with the exact partial contraction, and every trace, hole and walker query is compared with the exact value; merging of states is sound because their contents have just been compared with the same exact tensors.",
  "a case is one transition or one query; distinct = distinct (lattice, scheme, configuration, cache depths)",
  {"quick": "lattices 2x2, 2x3, 3x2 (every site may be updated), 3x3 (3 updated sites), 3x4, 4x3 (1), bond dimensions 1..3, three components per site, SVD / default / two-site / one-site compression without truncation; slice environments on lattices up to 2x4 for every reachable pair of lengths; requested maximum dimension 1..4",
   "thorough": "queries in every state, three bond patterns on 3x4/4x3, complex in full"},
  [part("real", "c12_bmps.cpp", inc=QL, flags=GA, san=False, opt="-O2", shards=8), part("cplx", "c12_bmps.cpp", inc=QL, san=False, opt="-O2", flags=GA + ["-DSMALL", "-DELT=std::complex<double>"], shards=8)],
  TNS + ["open boundaries and at least two sites per direction, as the contractor requires; cached slice environments are reused only for the slice they were built for"])

C("C13", "exhaustive enumeration of trial/commit/discard/clear/re-init/copy histories of the real periodic contractor, every answer compared with exact summation", MC,
  "Every history of the listed operations up to the stated length is executed on the real contractor; after every operation the amplitude, every single-site, every pair and (small tori) every triple replacement - as evaluation and as trial - and all holes are compared with exact summation over the torus; truncated contractions are compared with a contractor without history.",
  "a case is one history; distinct = distinct histories and distinct committed configurations",
  {"quick": "tori 1x1 (length 3), 2x2 and 3x3 with bond dimensions 1..3 (length 2, all configurations by commits on 2x2), 4x4 D=2 (all sites, length 2, untruncated, rank-exact and truncated to 1..6), 6x6 and 8x8 with restricted bonds (length 1); the wave-function component with accepted, rejected and global moves; refusal of every unsupported lattice up to 13x13",
   "thorough": "length 3 on 2x2, every site on 6x6 and 8x8, triples on 4x4, component sequences of length 3 on 2x2 and 2 on 4x4"},
  [part("real", "c13_trg.cpp", inc=QL, flags=GA, san=False, opt="-O2", shards=8), part("cplx", "c13_trg.cpp", inc=QL, san=False, opt="-O2", flags=GA + ["-DSMALL", "-DELT=std::complex<double>"], shards=8)],
  TNS + ["with coarse-graining steps a hole is required to close to the amplitude and to be independent of history; its other entries are a projection onto the retained bases and are not compared with the exact environment"])
C("C27", "exhaustive enumeration of configurations and of evaluation/move histories on the real model solvers, every energy, gradient hole and observable compared with the Hamiltonian's matrix elements and exact summation", MC,
  "Every basis configuration of each lattice (and every short history of evaluations, measurements, local flips and global replacements on one component) is given to the real spin model solvers on the real contractors; local energy, holes, the amplitude summary and every observable are compared with the matrix elements of the documented Hamiltonian evaluated with exactly summed amplitudes. Open boundaries: XXZ, J1-J2 XXZ, transverse-field Ising, triangular Heisenberg, triangular J1-J2; tori: Heisenberg, J1-J2 XXZ, Ising.",
  "a case is one (model, parameters, lattice, configuration) or one history; distinct = distinct of those",
  {"quick": "open lattices 2x2..3x3, 2x4, 4x2, 2x5 with uniform and mixed bond dimensions 1..3, all configurations; tori 2x2 and 3x3; histories of length 3 (2x2, 2x3, 3x2), 2 (3x4, 3x3 torus); double and complex",
   "thorough": "adds 3x4, 4x3, 5x2 and 3x3 uniform, all configurations; the full set with complex elements"},
  [part("real", "c27_models.cpp", inc=QL, flags=GA, san=False, opt="-O2", shards=8), part("cplx", "c27_models.cpp", inc=QL, san=False, opt="-O2", flags=GA + ["-DSMALL", "-DELT=std::complex<double>"], shards=8)],
  TNS + ["fermionic models (spinless, Hubbard, t-J) are not covered", "configurations whose amplitude vanishes relative to the typical one are skipped (their local energy is undefined)"])
C("C14", "exhaustive enumeration of configuration lists, rank counts and message matchings on the real exact-summation evaluator and measurer, compared with the dense state vector", MC,
  "The real ExactSumEnergyEvaluatorMPI and ExactSumMeasurerMPI run on 1..n simulated ranks (all matchings, buffered and unbuffered sends), with the state on the master only, for every listed set of configurations; energy, gradient and means are compared with <psi|H|psi>/<psi|psi> and its derivative computed from the dense vector. The configuration generators are enumerated for every composition of every small lattice.",
  "a case is one (model, list, ranks, what the other ranks hold); distinct = distinct of those per send mode",
  {"quick": "generators up to 6 sites and 4 local states; open 2x2, 2x3, 3x2 and torus 2x2; lists: all, every particle sector, subsets, singles, pairs; 1..4 ranks (5 for synthetic observable sets); double and complex",
   "thorough": "generators up to 8 sites, lattices up to 3x3 and 2x4, 1..6 ranks"},
  [part("real", "c14_exact.cpp", inc=QL, flags=GA, san=False, opt="-O2", shards=8), part("cplx", "c14_exact.cpp", inc=QL, san=False, opt="-O2", flags=GA + ["-DELT=std::complex<double>"], shards=8)],
  TNS + ["ranks are simulated in one process (lib/sim)"])
C("C11", "stateless exploration of every outcome class of every random draw of whole Monte Carlo sweeps on the real updaters (controlled random engine), giving the exact transition kernel, checked for stationarity", MC,
  "The random engine of the sweep updaters is replaced by one the explorer controls. For every start configuration every outcome class of every draw of a whole sweep is followed (class boundaries located by bisection), which yields the exact kernel of the sweep: |psi|^2 (exactly summed) must be stationary under it, conserved counts must be conserved, no zero-weight configuration may be entered, amplitude, configuration and tensors must agree at every draw, and a second sweep must have the same kernel as a first. The sweep skeletons are additionally driven by a move that takes every choice at every visited bond: every window visited once, every trial amplitude exact after every history, acceptance reported exactly.",
  "a case is one start configuration with its whole tree of outcomes, or one history of moves; distinct = distinct start configurations per updater and lattice",
  {"quick": "exchange / full-space / Hubbard / 3-site updaters on open 2x2, 2x3, 3x2, 3x3 (sectors up to 36-40 configurations), local dimensions 2..4, states with zero amplitudes; periodic updaters bond by bond on the 2x2 torus; skeletons on 2x2..4x3; double and complex",
   "thorough": "larger sectors (84-100), 2x4, 3x3 exchange, 3x3 torus"},
  [part("real", "c11_sweeps.cpp", inc=QL, flags=GA, san=False, opt="-O2", shards=8), part("cplx", "c11_sweeps.cpp", inc=QL, san=False, opt="-O2", flags=GA + ["-DSMALL", "-DELT=std::complex<double>"], shards=8)],
  TNS + ["random numbers reach the code only through its std::mt19937 engine (replaced at compile time by an engine of 64-bit range)", "each outcome of a draw occupies one interval of [0,1), or several none of which is narrower than 1/8", "the Jastrow-dressed updater cannot be instantiated (its component type has no usable constructor) and is not covered"])
ENG = TNS + ["ranks are simulated in one process (lib/sim)", "the sample stream of every rank is supplied by a scripted sweep updater (the real updaters are C11's subject)"]
C("C28", "exhaustive enumeration of lattice shapes, gates, projection sequences and executor runs on the real weighted network, compared with the exactly applied gates on exactly summed wave functions", MC,
  "Every projection, every short sequence of projections and every executor run within the bound is executed on the real code; the wave function before and after is summed exactly and the gates are applied by an independent dense oracle. Nothing is claimed for larger lattices or longer sequences, and truncation quality beyond the single-bond optimum is not judged.",
  "a case is one projection, one projection sequence or one executor run; distinct = distinct states reached",
  {"quick": "12+ lattice shapes up to 3x3 (single rows and columns, open and periodic), physical dimension 2 and 3, all 6 projections at every position with identity, generic and every elementary two-site gate, 3 truncation limits; all sequences of 2 projections (3 on small lattices); nearest, next-nearest and triangle executors with commuting terms, product eigenstates of every configuration, single bonds, site terms, wrong grid sizes, stop rules and limits; complex elements on a reduced set",
   "thorough": "additional networks, all configurations and all gate positions also for complex elements"},
  [part("real", "c28_simple_update.cpp", inc=QL, flags=GA + ["-DNDEBUG"], san=False, opt="-O2", shards=8), part("cplx", "c28_simple_update.cpp", inc=QL, san=False, opt="-O2", flags=GA + ["-DNDEBUG", "-DSMALL", "-DELT=std::complex<double>"], shards=8)], TNS)
C("C29", "exhaustive enumeration of sample streams, rank counts, stop points and message orders on the real measurement executor, its registry and every written file compared with the samples", MC,
  "The real MCPEPSMeasurer runs on 1..5 simulated ranks with every assignment of sample streams over a small alphabet of configurations, with synthetic observable sets (16 shapes, emitted in configuration-dependent order) and with every spin model; means, error bars, particle-number histogram, energy report, statistics files, psi.csv, particle files, metadata and dumped configurations are compared with the samples; termination signals are raised at every sample on every rank; the replica test's pairings are checked.",
  "a case is one (model, assignment of samples, options, stop point); distinct = distinct of those",
  {"quick": "1..4 ranks x 1..4 samples per rank, alphabets of 2-4 configurations, lattices 2x2, 2x3, 3x2, torus 2x2; sample counts up to 25 for progress output; stop after 0..4 samples on each of 1..3 ranks; replica test 1..4 ranks x 1..12 samples",
   "thorough": "up to 5 ranks and 6 samples, 3x3 and 2x4"},
  [part("real", "c29_measure.cpp", inc=QL, flags=GA, san=False, opt="-O2", shards=8), part("cplx", "c29_measure.cpp", inc=QL, san=False, opt="-O2", flags=GA + ["-DELT=std::complex<double>"], shards=8)],
  ENG + ["the observables of one sample are C27's subject: here they are taken from the same solver on a fresh component", "SpSm_cross is documented as an overlap to be normalised by the caller and is compared at the scale of the engine's state"])
C("C30", "exhaustive enumeration of validity patterns over ranks, rescue settings, warm-up states and message orders on the real Monte Carlo engine", MC,
  "Every assignment of eight kinds of starting configuration (three usable magnitudes, below and above the thresholds, zero, NaN, failing contraction) to 1..5 simulated ranks, every warm-up flag pattern, rescue on and off; which configuration each rank holds, who repeats the warm-up, the abort decision, the scale of the state and the stored amplitude are compared with the documented rule at construction and after warm-up, under every message matching.",
  "a case is one pattern; distinct = distinct patterns that run to the end",
  {"quick": "8 kinds on 1..3 ranks, 4 kinds on 4 ranks, 4 threshold settings; warm-ups that end in 6 kinds of configuration on 1..3 ranks with 0, 1, 3 sweeps; 2x2, 3x2 and torus 2x2", "thorough": "8 kinds on 4 ranks, 4 kinds on 5 ranks"},
  [part("real", "c30_engine.cpp", inc=QL, flags=GA, san=False, opt="-O2", shards=8), part("cplx", "c30_engine.cpp", inc=QL, san=False, opt="-O2", flags=GA + ["-DELT=std::complex<double>"], shards=8)], ENG)
C("C32", "exhaustive enumeration of sample streams, rank counts, call sequences and message orders on the real Monte Carlo energy/gradient evaluator, compared with the estimator formulas on exactly summed amplitudes", MC,
  "The real MCEnergyGradEvaluator runs on 1..5 simulated ranks for every assignment of sample streams over alphabets of 2-4 configurations and for every listed sequence of gradient and energy-only calls, with the state held by the master only; energy, its error, gradient, gradient norm, energy samples, derivative samples and mean and acceptance rates are compared with the estimators evaluated from exact amplitudes and holes, each sample counted once.",
  "a case is one (model, call sequence, assignment of samples); distinct = distinct of those",
  {"quick": "1..4 ranks x 1..4 samples (fixed streams up to 18 samples on 1..3 ranks), 1..3 sweeps per sample, open 2x2 (XXZ, Ising), 2x3 (J1-J2), torus 2x2 (Heisenberg)", "thorough": "up to 5 ranks, 6 samples, fixed streams up to 40"},
  [part("real", "c32_mcgrad.cpp", inc=QL, flags=GA, san=False, opt="-O2", shards=8), part("cplx", "c32_mcgrad.cpp", inc=QL, san=False, opt="-O2", flags=GA + ["-DELT=std::complex<double>"], shards=8)], ENG)
C("C33", "exhaustive enumeration of energy histories, rank counts, stop points, repeated runs and message orders on the real optimisation driver and its entry points, compared with the recorded evaluations and with the evaluator and optimiser wired by hand", MC,
  "The real VMCPEPSOptimizer runs on 1..4 simulated ranks for every scripted history of energies within the bound, with and without user callbacks, checkpoints, stop requests, dump names, configuration dumps, blocked outputs and repeated Execute() calls; trajectories, minimum, lowest and final state, callbacks and every written file are compared with the recorded evaluations. Sampled runs of SGD, Adam, SR, MinSR and L-BFGS (fixed step and strong Wolfe), with step selectors, spike recovery and custom evaluators, must equal the real evaluator and the real optimiser wired together in the harness (those two are decided by C32 and C03/C12). VmcOptimize and MonteCarloMeasure are run for every combination of updater, truncation parameters and boundary condition.",
  "a case is one (lattice, history of energies, options) or one (algorithm, selectors, ranks) or one entry-point combination; distinct = distinct (ranks, iterations, best iteration)",
  {"quick": "all histories over 3 energies up to 5 iterations on 1 rank, 2-4 iterations on 2-3 ranks, 1-3 runs per executor; stop after 0..3 iterations; open 2x2 and 2x3, torus 2x2; double and complex", "thorough": "histories of 6-8 iterations, up to 4 ranks"},
  [part("real", "c33_driver.cpp", inc=QL, flags=GA, san=False, opt="-O2", shards=8), part("cplx", "c33_driver.cpp", inc=QL, san=False, opt="-O2", flags=GA + ["-DELT=std::complex<double>"], shards=8)], ENG + ["evaluator and optimiser themselves are the subject of C32 and C03/C12"])
