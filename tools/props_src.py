#!/usr/bin/env python3
"""Source of properties.jsonl: run this to regenerate it."""
import json, os
P = []
I = "include/qlpeps/"
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": [I + f for f in files],
        "mechanism": [{"name": m[0], "where": I + m[1]} for m in mech],
        "observe_at": observe or [], "hook_needed": hook}})

p("C01", "Grid containers behave as values under every operation history",
  "A 2D grid container (plain grid or tensor grid) behaves as an independent value: whatever sequence of construct, allocate, write, read, copy, move, assign, deallocate, compare and iterate operations is applied, every cell holds the last value written to it through that grid, copies never share or lose elements, a moved-from or self-assigned grid stays safe to use, and every element is created and destroyed exactly once. Shapes reported by a grid always describe its storage, iteration visits every cell once in row-major order, and extracting or forward/backward scanning rows and columns yields exactly the cells asked for.",
  ["histories", "inputs"], "all operation sequences up to a depth bound over two/three grids of small shapes (including 0x0, 1xN, Nx1), with and without allocated cells",
  "Tests exercise a handful of fixed call sequences on one shape; ownership bugs need particular sequences (assign over a larger grid, move then reuse, copy a partly filled grid).",
  ["two_dim_tn/framework/duomatrix.h", "two_dim_tn/framework/ten_matrix.h", "two_dim_tn/framework/site_idx.h"],
  [("deep copy / pointer stealing in the special members", "two_dim_tn/framework/duomatrix.h"), ("alloc/dealloc and linear iterators", "two_dim_tn/framework/duomatrix.h")])

p("C02", "A save that reports success can be loaded back exactly",
  "Saving a tensor grid, a wave function or a Monte Carlo configuration to disk and loading it back yields the same shape, boundary condition and element values for every content. If any part of the save did not reach the file system, the save reports failure and never releases in-memory data that is not on disk; loading missing, truncated or wrongly shaped data reports failure instead of returning a success with wrong contents.",
  ["inputs", "fault_sequences"], "all small shapes/contents, and every file of the save failing (unwritable path, disk full) as well as every truncation of a saved file",
  "Tests only do a happy-path round trip of one object; they never inject a full disk or a truncated file.",
  ["two_dim_tn/framework/ten_matrix.h", "two_dim_tn/tps/split_index_tps_impl.h", "two_dim_tn/tps/tps_impl.h", "vmc_basic/configuration.h"],
  [("DumpTen/LoadTen result codes", "two_dim_tn/framework/ten_matrix.h"), ("Dump/Load with meta file", "two_dim_tn/tps/split_index_tps_impl.h"), ("Dump/Load", "vmc_basic/configuration.h")])

p("C03", "Learning-rate schedulers follow their documented schedule on every history",
  "Each learning-rate scheduler returns, at every iteration of every energy history, exactly the documented value (constant, exponential or step decay, milestones, cosine annealing, warm-up, reduce-on-plateau), never leaves its documented bounds, and stateless schedules do not depend on the order of queries. A cloned scheduler continues from the same state and afterwards evolves independently of the original.",
  ["histories", "inputs"], "all short energy histories over a small alphabet, all iterations in a window, all small parameter sets including degenerate ones (period 0, empty or unsorted milestones, patience 0)",
  "Tests sample a few iterations per scheduler; plateau counting, boundaries and clone independence depend on the whole history.",
  ["optimizer/lr_schedulers.h"], [("GetLearningRate/Step/Clone", "optimizer/lr_schedulers.h")])

p("C04", "Spike-detection statistics match their recurrence on every history",
  "The running energy statistics used for spike detection equal, after every update history, the documented exponential recurrence (mean, variance, standard deviation, readiness), for every positive window length, and a reset returns to exactly the initial state. Querying never changes the statistics, the variance is never negative, and every spike signal and action has its own stable name.",
  ["histories"], "all update/reset histories up to a depth over a small value alphabet, for several window lengths",
  "Tests check a few constant and ramp series only.",
  ["optimizer/spike_detection.h"], [("EMATracker::Update/Reset", "optimizer/spike_detection.h")])

p("C05", "Spike recovery takes the documented action on every energy/gradient history",
  "During iterative optimisation each step is classified against the documented spike signals (energy-error jump, gradient-norm jump, natural-gradient anomaly, upward energy jump) and answered with the documented action: resample at most the configured number of times without advancing the iteration, roll back to the previously accepted state when that is enabled and possible, otherwise accept with a warning. Statistics learn only from accepted steps, and the loop always terminates.",
  ["histories"], "all evaluator answer sequences over a small alphabet of energies, errors and gradient norms up to a depth, for every recovery configuration",
  "No test in the runnable suite runs the optimisation loop; the outcome depends on the whole answer history.",
  ["optimizer/optimizer_impl.h", "optimizer/spike_detection.h", "optimizer/optimizer_params.h"],
  [("spike classification and action selection", "optimizer/optimizer_impl.h"), ("EMATracker", "optimizer/spike_detection.h")])

p("C06", "All ranks leave the optimisation loop together under every schedule",
  "Whatever the ranks observe (a stop requested through the callback, spike, convergence or plateau on the master, checkpoint, step selection, failing trial evaluation) every rank performs the same sequence of collective operations and leaves the optimisation at the same iteration, so the run never deadlocks and never mixes data of different operations. The result on the master does not depend on the number of ranks or on message timing.",
  ["schedules", "histories", "configurations"], "all rank interleavings of blocking communication for 1-3 ranks, stop requests at every iteration, all short evaluator histories",
  "Tests that can run here are single-process; MPI tests sample one schedule.",
  ["optimizer/optimizer_impl.h", "optimizer/stochastic_reconfiguration_smatrix.h", "utility/conjugate_gradient_solver.h"],
  [("broadcast of should_stop / spike action / selected learning rate", "optimizer/optimizer_impl.h")])

p("C07", "The optimisation result reports what really happened",
  "The result of an optimisation run contains one trajectory entry per accepted iteration, the lowest energy ever evaluated together with exactly the state it was evaluated at, and the final energy and error of the last evaluation; iteration limits, energy-change, gradient and plateau stopping rules fire exactly when documented. Checkpoints and logs are written exactly at the configured iterations and describe those iterations.",
  ["histories", "configurations"], "all evaluator histories over a small alphabet up to a depth and all stopping-rule parameter combinations from a small grid",
  "No runnable test executes the loop; each stopping rule depends on the order of improvements.",
  ["optimizer/optimizer_impl.h", "optimizer/optimizer.h", "optimizer/optimizer_params.h"],
  [("IterativeOptimize", "optimizer/optimizer_impl.h")])

p("C08", "Optimiser updates follow the documented rule on every gradient history",
  "For every sequence of gradients and learning rates, the state produced by plain/momentum/Nesterov gradient descent with weight decay and clipping, AdaGrad, Adam, L-BFGS and stochastic reconfiguration equals the documented update formula, the accumulated history starts clean for each fresh optimiser, and the input state is never modified in place.",
  ["histories", "inputs"], "all gradient histories over a small alphabet up to a depth, all hyper-parameter combinations from a small grid",
  "No runnable test covers the update rules; errors in accumulators only show after several steps.",
  ["optimizer/optimizer_impl.h", "optimizer/optimizer_params.h"], [("per-algorithm update functions", "optimizer/optimizer_impl.h")])

p("C09", "Step selection picks the documented step among its trials",
  "The automatic step selectors evaluate exactly the documented candidate steps from the current state, and continue with the candidate whose measured energy is best under the documented error-aware rule; trial evaluations change neither the current state nor the optimiser's accumulated history. The chosen step is the one actually applied and reported.",
  ["histories", "inputs"], "all trial-energy answers over a small alphabet for every selector configuration and iteration phase",
  "No runnable test runs a selector; the rule has tie, phase and error branches.",
  ["optimizer/optimizer_impl.h", "optimizer/optimizer_params.h"], [("initial and periodic step selectors", "optimizer/optimizer_impl.h")])

p("C10", "The local Monte Carlo kernel leaves its target distribution stationary",
  "For every non-negative weight vector and every starting state with positive weight, the multi-state Monte Carlo kernel selects a next state such that the weights are exactly stationary (total inflow to each state equals its weight), never selects a state of zero weight, always returns a valid state index, and does not modify its inputs.",
  ["inputs"], "all integer weight vectors up to a length and magnitude bound, all starting states, all (quantised) random draws",
  "Tests can only sample draws and compare histograms statistically.",
  ["vmc_basic/monte_carlo_tools/suwa_todo_update.h"], [("SuwaTodoStateUpdate", "vmc_basic/monte_carlo_tools/suwa_todo_update.h")])

p("C11", "Monte Carlo sweeps sample |psi|^2 and keep conserved quantities",
  "Every sweep updater changes configurations only in ways that keep the Born weights stationary for the sites it touches, conserves the particle/spin counts its rule promises, visits every bond of the lattice as documented, and leaves the stored amplitude, configuration and projected tensors consistent with one another.",
  ["inputs", "histories"], "all configurations of small lattices, all random decision sequences of a sweep",
  "Needs the tensor library, so no runnable test; stationarity cannot be settled by sampling.",
  ["vmc_basic/configuration_update_strategies/square_nn_updater.h", "vmc_basic/configuration_update_strategies/square_3site_updater.h", "vmc_basic/configuration_update_strategies/square_hubbard_u1u1_updater.h", "vmc_basic/wave_function_component.h"],
  [("Metropolis / Suwa-Todo local updates", "vmc_basic/configuration_update_strategies/square_nn_updater.h")])

p("C12", "Boundary-MPS contraction gives the same answer along every route",
  "With enough bond dimension, every amplitude, local-replacement trace and hole obtained from the boundary-MPS contractor equals the exact contraction of the network, whichever sequence of environment growth, window shifts, local updates and cache invalidations led to it.",
  ["histories", "inputs"], "all operation sequences up to a depth on small lattices, all positions and orientations, all compression schemes with non-truncating parameters",
  "Needs the tensor library, so no runnable test; stale-cache bugs need specific operation orders.",
  ["two_dim_tn/tensor_network_2d/bmps/bmps_contractor.h", "two_dim_tn/tensor_network_2d/bmps/impl/bmps_contractor_grow.h", "two_dim_tn/tensor_network_2d/bmps/impl/bmps_contractor_trace.h", "one_dim_tn/boundary_mps/bmps_impl.h"],
  [("environment cache growth and invalidation", "two_dim_tn/tensor_network_2d/bmps/impl/bmps_contractor_grow.h")])

p("C13", "Periodic contraction and its trial updates are exact and history-free",
  "For periodic networks within the supported sizes, the renormalisation contractor's amplitude and trial-replacement amplitudes equal the exact contraction when truncation is disabled; holes are the exact environments on 2x2 and 3x3 and, on larger tori, close with their own tensor to the amplitude; committing a trial leaves the same cached state as starting afresh on the new network (with or without truncation), discarding one leaves it untouched, ClearCache or Init followed by Trace picks up the current network, and unsupported lattices are refused.",
  ["histories", "inputs"], "all trial/commit/discard sequences up to a depth on small periodic lattices, all replaced sites",
  "Needs the tensor library, so no runnable test; cache bugs need specific commit orders.",
  ["two_dim_tn/tensor_network_2d/trg/trg_contractor.h", "two_dim_tn/tensor_network_2d/trg/trg_contractor_impl.h"],
  [("BeginTrial/CommitTrial cache", "two_dim_tn/tensor_network_2d/trg/trg_contractor_impl.h")])

p("C14", "Exact-summation energy and gradient are right for any rank count",
  "The exact-summation evaluator returns the energy expectation and energy gradient of the given state and model as defined by the weighted sum over all listed configurations, identically for every number of ranks and every message timing, and the generated configuration list contains each admissible configuration exactly once.",
  ["inputs", "configurations", "schedules"], "all rank counts 1-4 (also more ranks than configurations), small lattices and states, all message timings",
  "Needs the tensor library, so no runnable test; rank partition errors depend on divisibility.",
  ["algorithm/vmc_update/exact_summation_energy_evaluator.h"], [("ExactSumEnergyEvaluatorMPI", "algorithm/vmc_update/exact_summation_energy_evaluator.h")])

p("C15", "Monte Carlo statistics are right for every sample set and rank layout",
  "Means, variances, standard errors, binned errors and autocorrelation inflation factors equal their textbook definitions for every sample series, treat empty and single-sample input as documented, and give the same answer however the samples are distributed over ranks in equal shares (in unequal shares, binned estimates combine the bins of all ranks); every rank takes part in the same collectives.",
  ["inputs", "configurations", "schedules"], "all short integer sample series, all rank counts 1-4, all message timings",
  "Tests check a few series on one process.",
  ["vmc_basic/monte_carlo_tools/statistics.h", "vmc_basic/statistics_tensor.h"], [("mean/variance/binning and MPI gather", "vmc_basic/monte_carlo_tools/statistics.h")])

p("C16", "The linear solver's verdict is truthful, serial and distributed alike",
  "The conjugate-gradient solver solves every well-conditioned positive-definite system; when it reports convergence the returned vector satisfies the requested residual tolerance; otherwise it reports the true reason and a usable best iterate; and the distributed solver returns the same answer as the serial one for every rank count and message timing without any rank being left waiting, on every exit path.",
  ["inputs", "schedules", "configurations"], "all small integer (Hermitian, semidefinite and indefinite) systems from a finite alphabet, all iteration limits and tolerances from a small grid, 1-3 ranks, all message timings",
  "Tests solve one system and sample one schedule; exit paths (zero rhs, breakdown, indefinite, stagnation) are not enumerated.",
  ["utility/conjugate_gradient_solver.h"], [("ConjugateGradientSolver master/slave protocol", "utility/conjugate_gradient_solver.h")])

p("C17", "States and configurations survive every transfer between ranks",
  "Sending, receiving or broadcasting a wave function or a configuration between ranks delivers exactly the sender's shape, boundary condition and values to every receiver, whatever the receiver held before (a configuration receiver is given its size beforehand, as documented), whatever order messages are matched in, and without deadlock even when sends do not buffer.",
  ["schedules", "inputs"], "all message matchings and interleavings for 2-3 ranks with buffered and unbuffered sends, receivers holding default, equal or different content",
  "No runnable test; real MPI tests sample a single timing.",
  ["two_dim_tn/tps/split_index_tps.h", "two_dim_tn/tps/split_index_tps_impl.h", "vmc_basic/configuration.h"], [("MPI_Send/MPI_Recv/MPI_Bcast", "two_dim_tn/tps/split_index_tps_impl.h")])

p("C18", "Wave-function arithmetic obeys vector-space laws and keeps the lattice",
  "Addition, subtraction, scaling, negation, element-wise maps, inner product and norm of wave functions agree with component-wise arithmetic for every pair of states (including absent components), never modify their operands, and preserve lattice shape and boundary condition; the weighted sum of two wave functions has the weighted sum of their amplitudes; reported bond dimensions are those of the tensors on every lattice shape.",
  ["inputs", "histories"], "all small lattices/boundary conditions, all patterns of absent components, all short expression sequences over integer-valued states",
  "Needs the tensor library, so no runnable test; aliasing and metadata loss need specific sequences.",
  ["two_dim_tn/tps/split_index_tps.h", "two_dim_tn/tps/split_index_tps_impl.h"], [("operator overloads, NormSquare, ElementWise*", "two_dim_tn/tps/split_index_tps_impl.h")])

p("C19", "MinSR and SR linear algebra equals its definition for any rank count",
  "The sample-space Gram matrix, the covariance matrix-vector product and the regularised pseudo-inverse solve equal their mathematical definitions for all samples, independent of how samples are distributed over ranks; the replicated and the distributed eigensolve agree; and the exchanges never deadlock even when sends do not buffer.",
  ["inputs", "configurations", "schedules"], "all small integer sample sets from a finite alphabet, 1-4 ranks, all message timings, real and complex, hard and soft cutoffs",
  "No runnable test; ring exchange and block-cyclic layout errors depend on rank count and divisibility.",
  ["optimizer/minsr_tmatrix.h", "optimizer/minsr_eigensolve.h", "optimizer/minsr_scalapack.h", "optimizer/stochastic_reconfiguration_smatrix.h"],
  [("ring exchange + centering", "optimizer/minsr_tmatrix.h"), ("pseudo-inverse cutoff", "optimizer/minsr_eigensolve.h")])

p("C20", "Amplitude-consistency summaries are exact and sign-insensitive",
  "The amplitude-consistency summary of any list of repeated amplitude evaluations reports the sign-aligned mean and the documented relative spread: zero spread for values that agree up to a sign, a spread that does not depend on sign flips of individual entries nor on scale; empty and all-zero lists give the documented result.",
  ["inputs"], "all lists up to a length over small real and complex alphabets, all sign/phase patterns",
  "No test covers it beyond simple lists.",
  ["algorithm/vmc_update/psi_consistency.h"], [("ComputePsiConsistencySummaryAligned", "algorithm/vmc_update/psi_consistency.h")])

p("C21", "Observable matrices keep every entry addressable and correct",
  "A small observable matrix stores, adds, resizes and extracts values so that after every operation history each (row, column) entry equals what the history implies, flattened output is row-major of exactly rows x columns values, and out-of-range access is rejected rather than touching other entries.",
  ["histories"], "all operation sequences up to a depth over small shapes and values",
  "Tests check a few accesses on fixed shapes.",
  ["utility/observable_matrix.h"], [("index mapping and resize", "utility/observable_matrix.h")])

p("C22", "Optimiser parameter objects are faithful and independent of build order",
  "Parameters built through constructors, factories or the builder contain exactly the values given, documented defaults elsewhere, independent of setter order; copies are deep (sharing no scheduler state), and incomplete builds are rejected.",
  ["histories", "inputs"], "all setter sequences up to a depth, all copy/assign patterns",
  "Tests build a few fixed parameter sets.",
  ["optimizer/optimizer_params.h", "optimizer/lr_schedulers.h"], [("builder, factories, copy control", "optimizer/optimizer_params.h")])

p("C23", "A stop request on any rank stops all ranks at the same point",
  "After an interrupt or terminate signal reaches any rank at any moment, the next collective stop query returns true on every rank, and without one it returns false on every rank; the request is never lost nor spuriously raised, and signal handling is restored for later use as documented.",
  ["schedules", "fault_sequences"], "all signal delivery points (before, between and after queries) on each rank, all rank interleavings, 1-3 ranks",
  "No runnable test; signal timing cannot be sampled meaningfully.",
  ["base/mpi_signal_guard.h"], [("signal flag + allreduce", "base/mpi_signal_guard.h")])

p("C24", "Directory helpers tell the truth",
  "Path helpers report a path as existing only if it does, create all missing parents of the requested path or of a file's parent, report success only when the directory exists afterwards, and never delete or overwrite existing content.",
  ["inputs", "fault_sequences"], "all small directory-tree states (absent, directory, regular file, nested, trailing slashes, unwritable parents)",
  "Tests do not cover pre-existing files or failing creation.",
  ["utility/filesystem_utils.h"], [("IsPathExist/CreatePath/EnsureDirectoryExists", "utility/filesystem_utils.h")])

p("C25", "Configurations conserve occupancy and validate their input",
  "Randomly generated configurations contain exactly the requested number of sites in each local state for every random outcome, cover every arrangement, and counting, validation, comparison and summation queries agree with the cells.",
  ["inputs"], "all small lattices, all occupancy vectors, all random outcomes",
  "No runnable test (needs stub of tensor library base classes); shuffles are only sampled.",
  ["vmc_basic/configuration.h"], [("Random/CountOccupancy/IsValid", "vmc_basic/configuration.h")])

p("C26", "Pair-correlation (Jastrow) tables are symmetric and lossless",
  "The Jastrow table stores one independent value for every unordered pair of distinct sites, reads back the same value for both orders and both addressing styles, keeps other pairs untouched, and the local field at a site is the sum over all other sites of pair value times density.",
  ["inputs", "histories"], "all lattices up to a size, all site pairs, all write orders of pairs",
  "No runnable test; packed-index collisions appear only at particular pairs.",
  ["vmc_basic/jastrow_factor.h"], [("PackedUpperIndex", "vmc_basic/jastrow_factor.h")])

p("C27", "Model solvers' local energies equal the Hamiltonian's matrix elements",
  "For every configuration, the local energy returned by each lattice model solver equals the sum over connected configurations of Hamiltonian matrix element times amplitude ratio, with each bond, plaquette and field term of the documented Hamiltonian counted exactly once, for open and periodic lattices.",
  ["inputs", "configurations"], "all configurations of small lattices, generic real and complex states, all coupling patterns from a small grid",
  "Needs the tensor library, so no runnable test; miscounted boundary bonds show only on particular shapes.",
  ["algorithm/vmc_update/model_solvers/square_spin_onehalf_xxz_obc.h", "algorithm/vmc_update/model_solvers/square_spin_onehalf_j1j2_xxz_obc.h", "algorithm/vmc_update/model_solvers/transverse_field_ising_square_obc.h", "algorithm/vmc_update/model_solvers/base/bond_traversal_mixin.h"],
  [("bond traversal and per-bond energy", "algorithm/vmc_update/model_solvers/base/bond_traversal_mixin.h")])

p("C28", "Imaginary-time simple update applies every gate and Hamiltonian term exactly once",
  "Each two- and three-site projection of the weighted network applies exactly the given gate to exactly the given sites (any lattice shape including single rows and columns, open or periodic), changes nothing else, leaves ordered positive bond weights within the truncation limits, and reports the true local energy, truncation error and bond dimension; a sweep of the nearest-neighbour, next-nearest-neighbour or triangle executor applies every bond, triangle and on-site term of the Hamiltonian with total weight one; stop rules and run summaries describe the sweeps that ran; converting between the weighted and the plain forms represents the same wave function.",
  ["inputs", "histories"], "small lattices, generic states, identity, elementary and generic gates, all bonds and triangles, all executors",
  "Needs the tensor library, so no runnable test; wrong weights at edges show only for particular shapes and Hamiltonians.",
  ["algorithm/simple_update/simple_update_impl.h", "algorithm/simple_update/square_lattice_nn_simple_update.h", "algorithm/simple_update/square_lattice_nnn_simple_update.h", "algorithm/simple_update/triangle_nn_on_sqr_peps_simple_update.h", "two_dim_tn/peps/square_lattice_peps_projection_impl.h", "two_dim_tn/peps/square_lattice_peps_basic_impl.h", "api/conversions.h"],
  [("two- and three-site projections", "two_dim_tn/peps/square_lattice_peps_projection_impl.h"), ("gate construction and sweeps", "algorithm/simple_update/square_lattice_nnn_simple_update.h")])

p("C29", "Monte Carlo measurements aggregate every sample of every rank once",
  "Measured observables, their errors and the particle-number histogram equal the averages over all samples of all ranks, each counted once, for every rank count and message timing; dumped files contain those numbers.",
  ["configurations", "schedules", "inputs"], "1-3 ranks, scripted sample streams, all message timings",
  "Needs the tensor library, so no runnable test.",
  ["algorithm/vmc_update/monte_carlo_peps_measurer_impl.h"], [("gather and statistics", "algorithm/vmc_update/monte_carlo_peps_measurer_impl.h")])

p("C30", "Invalid starting configurations are rescued or rejected on all ranks alike",
  "For every pattern of valid and invalid starting configurations across ranks, either every rank ends with a valid configuration taken from a healthy rank (and repeats its warm-up), or the job is aborted as documented; healthy ranks keep their own configuration, and the state is normalised by the same factor on all ranks.",
  ["configurations", "schedules", "fault_sequences"], "all validity patterns for 1-4 ranks, rescue on/off, all message timings",
  "Needs the tensor library and several ranks; no runnable test.",
  ["algorithm/vmc_update/monte_carlo_engine.h"], [("EnsureConfigurationValidity / NormalizeStateOrder1", "algorithm/vmc_update/monte_carlo_engine.h")])

p("C31", "Fermionic sign structure of tensors is respected",
  "For fermionic wave functions all contractions, gradients and model energies carry the sign structure of the graded tensor algebra.",
  ["inputs"], "all configurations of small fermionic lattices",
  "Needs the graded tensor library.",
  ["algorithm/vmc_update/model_solvers/square_tJ_model.h", "algorithm/vmc_update/model_solvers/square_hubbard_model.h", "algorithm/vmc_update/mc_energy_grad_evaluator.h"],
  [("graded tensor operations of TensorToolkit", "algorithm/vmc_update/mc_energy_grad_evaluator.h")])

p("C32", "Monte Carlo energy and gradient are the sample averages over all ranks",
  "For every assignment of samples to ranks the energy, its error bar, the gradient, the log-derivative samples and their mean returned by the Monte Carlo evaluator equal the documented estimators over all samples of all ranks, each sample counted once, evaluated at the state passed in (held by the master), for any sequence of gradient and energy-only calls and any message timing.",
  ["configurations", "schedules", "inputs"], "1-5 ranks, all short sample streams over a small alphabet, call sequences, all message timings",
  "Needs the tensor library and several ranks; no runnable test.",
  ["algorithm/vmc_update/mc_energy_grad_evaluator.h"], [("Evaluate / EvaluateEnergyOnly", "algorithm/vmc_update/mc_energy_grad_evaluator.h")])

p("C33", "The optimisation driver reports and returns exactly what the optimisation did",
  "A VMC optimisation run records one trajectory entry (energy, error, gradient norm) per iteration with the evaluator's numbers, also over repeated runs of one executor; the minimum energy and the lowest state belong to the same evaluation and are the minimum of everything recorded; the final state is the optimiser's last state and lowest and final state are the same on every rank; user callbacks are called for every iteration, every new minimum and stop decision; written states, configurations and trajectory files hold what the accessors report, and an output that cannot be written is reported without leaving ranks waiting; the entry points VmcOptimize and MonteCarloMeasure return the executor's results and reject a boundary condition, truncation parameters and updater that do not fit together.",
  ["histories", "schedules", "inputs"], "1-4 ranks, all short energy histories over 3 values, 1-3 runs, all stop points, all message timings; 5 algorithms on sampled energies",
  "Needs the tensor library and several ranks; no runnable test; the record is wrong only for particular histories such as a later, worse run.",
  ["algorithm/vmc_update/vmc_peps_optimizer_impl.h", "algorithm/vmc_update/vmc_peps_optimizer.h", "api/vmc_api.h"], [("Execute and the record of the run", "algorithm/vmc_update/vmc_peps_optimizer_impl.h"), ("entry points", "api/vmc_api.h")])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
