#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the wording is edited in one place)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

SB = "src/shared/SolverBase.cpp"
p("C01", "Hydro results do not depend on the domain decomposition",
  "Running the finite-volume (MUSCL) hydrodynamics solver, in 2D or 3D, on any mx x my x mz grid of ranks produces the same global solution at every output and the same final time as running the same global problem on one rank, whatever order ranks execute in, whatever delays messages suffer and however the MPI library numbers ranks in the cartesian communicator.",
  ["schedules", "configurations", "inputs"],
  "all rank schedules, message timings and rank placements x decompositions x boundary types x Riemann solvers x gravity on/off x built-in problems and arbitrary restart data",
  "No test runs a finite-volume solver at all; the MPI tests only print topology or reload one fixed array on one fixed layout. The property quantifies over decompositions and message schedules.",
  [SB, "src/shared/mpiBorderUtils.h", "src/shared/HydroParams.cpp", "src/muscl/SolverHydroMuscl.cpp"],
  [("halo exchange X then Y then Z with per-direction tags", "SolverBase::make_boundaries_mpi / transfert_boundaries_*"),
   ("global dt by all-reduce", "SolverBase::compute_dt"), ("sub-domain origin from cartesian coordinates", "HydroParams::setup and the init functors")],
  observe=["HDF5 outputs written by the application"])
p("C02", "MHD results do not depend on the domain decomposition",
  "Running the ideal-MHD solver, in 2D or 3D and with any of its implementation versions, on any mx x my x mz grid of ranks produces the same global solution (conserved variables and face-centred magnetic field) at every output as running it on one rank, for every rank schedule, message timing and rank numbering.",
  ["schedules", "configurations", "inputs"],
  "all rank schedules, message timings and rank placements x decompositions x boundary types x implementation versions x built-in problems and arbitrary restart data",
  "No test runs the MHD solver. The property quantifies over decompositions and schedules.",
  [SB, "src/shared/mpiBorderUtils.h", "src/muscl/SolverMHDMuscl.cpp", "src/muscl/MHDRunFunctors2D.h", "src/muscl/MHDRunFunctors3D.h"],
  [("halo exchange with 3 ghost layers and 8 variables", "SolverBase::make_boundaries_mpi"), ("constrained transport redundantly evaluated on shared faces", "SolverMHDMuscl::godunov_unsplit_impl")],
  observe=["HDF5 outputs written by the application"])
p("C03", "Ghost cells always hold the boundary image of the global field",
  "After ghost cells are filled, every ghost cell of every rank, edges and corners included, holds exactly the value dictated by the global field: the neighbour's interior value across an internal or periodic boundary, the nearest interior value at an outflow boundary, and the mirrored value with the normal momentum (and normal magnetic field) reversed at a reflecting boundary. This holds for every decomposition, boundary-type combination, rank schedule and message delivery order, including two ranks that are each other's neighbour on both sides and a rank that is its own neighbour.",
  ["schedules", "configurations", "inputs"],
  "all boundary-type combinations x decompositions x schedules x field contents",
  "No test fills ghost cells of a finite-volume solver in parallel; the corner values depend on the order of the directional exchanges.",
  ["src/shared/BoundariesFunctors.h", "src/shared/mpiBorderUtils.h", SB, "src/shared/HydroParams.cpp"],
  [("direction-by-direction fill covering already filled ghosts", "SolverBase::make_boundaries_mpi / make_boundaries_serial"), ("neighbour boundary classification", "HydroParams::setup")],
  observe=["ghost cells stored in HDF5 outputs (output.allghostIncluded / ghostIncluded)"])
p("C04", "Every parallel run communicates soundly and terminates",
  "For every schedule, message delay, eager or rendezvous choice and stalled rank, a parallel run finishes within a bounded number of communication steps: no deadlock, no unmatched, truncated or type-mismatched message, all ranks call the same collectives with compatible arguments in the same order, collective file operations agree on all ranks, and nothing is left undelivered when MPI is finalised.",
  ["schedules", "configurations", "fault_sequences"],
  "all schedules, delays, buffering choices and slow ranks x decompositions x output options",
  "A real MPI library exhibits one timing and buffers small messages, hiding rendezvous deadlocks and mismatched collectives.",
  [SB, "src/utils/mpiUtils/MpiComm.cpp", "src/utils/mpiUtils/MpiCommCart.cpp", "src/utils/mpiUtils/GlobalMpiSession.cpp", "src/main.cpp", "src/utils/io/IO_HDF5.h", "src/shared/HydroParams.cpp"],
  [("paired sendrecv calls", "SolverBase::transfert_boundaries_2d/3d"), ("unconditional collectives", "SolverBase::compute_dt, Save_HDF5_mpi::save"), ("session finalisation", "GlobalMpiSession destructor")])
p("C05", "One global time step that respects the CFL limit",
  "At every step of the hydrodynamics, MHD and spectral-difference solvers all ranks advance by the same dt, which equals cfl divided by the largest signal rate over the cells (solution points) of the whole domain (never more than the stability limit of any cell on any rank), except that the last step is shortened so that the run ends exactly at tEnd. It holds for every decomposition and every reduction order.",
  ["schedules", "configurations", "inputs"],
  "all schedules, reduction orders and decompositions x problems",
  "No test computes a time step of the finite-volume solvers; a wrong reduction or a per-rank dt only shows for particular data placements.",
  [SB, "src/muscl/HydroRunFunctors2D.h", "src/muscl/HydroRunFunctors3D.h", "src/muscl/MHDRunFunctors2D.h", "src/muscl/MHDRunFunctors3D.h", "src/sdm/SDM_Dt_Functor.h", "src/shared/EulerEquations.h"],
  [("max-reduction of the inverse time step, min all-reduce, tEnd clamp", "compute_dt_local / SolverBase::compute_dt")],
  observe=["'total time' of consecutive outputs against the stored state"])
p("C06", "Kernels are free of races and independent of thread scheduling",
  "Whatever the number of threads and however they interleave inside a parallel kernel, no two threads perform conflicting unsynchronised accesses to the same datum, and the finite-volume solvers produce the same solution: bit for bit where updates are gathered, and up to floating-point re-association where an implementation accumulates with atomics.",
  ["schedules", "configurations"],
  "all thread counts and interleavings of every kernel x solvers, dimensions and implementation versions",
  "The tests run each kernel once under an uncontrolled schedule, and never the finite-volume ones.",
  ["src/muscl/HydroRunFunctors2D.h", "src/muscl/HydroRunFunctors3D.h", "src/muscl/MHDRunFunctors2D.h", "src/muscl/MHDRunFunctors3D.h", "src/shared/BoundariesFunctors.h", "src/shared/mpiBorderUtils.h"],
  [("separate input and output arrays, one writer per cell", "godunov_unsplit_impl"), ("atomic add/sub for scatter updates", "Compute*AndUpdate* functors")])
p("C07", "Results depend only on the parameters, not on clocks or stale memory",
  "Two runs with the same parameter file and inputs give bit-identical physical outputs whatever the clocks do (jumps forwards or backwards, different start dates), whatever uninitialised or recycled memory contains, and whatever the relative speed of ranks; the only output allowed to differ is the recorded creation date and the timing report.",
  ["schedules", "histories", "fault_sequences"],
  "all clock behaviours, heap contents and relative speeds x configurations",
  "Tests run once, with fresh zero pages and a smooth clock.",
  ["src/utils/monitoring", "src/shared/SolverBase.cpp", "src/muscl/SolverHydroMuscl.h", "src/muscl/SolverMHDMuscl.h", "src/utils/io/IO_common.cpp", "src/shared/solver_utils.cpp"],
  [("timers only feed the report", "print_solver_monitoring_info"), ("zero-initialised arrays and full ghost fill before use", "solver constructors")])
p("C08", "Mass, momentum and energy are conserved",
  "On a fully periodic domain the finite-volume solvers keep the global sums of density, every momentum component and total energy constant to round-off from output to output, and the hydrodynamics solvers with reflecting walls keep mass and energy constant, for any decomposition and schedule.",
  ["schedules", "configurations", "inputs"],
  "all schedules and decompositions x problems x implementation versions x arbitrary admissible initial data",
  "Tests never step a finite-volume solver; a flux double-counted or lost at a sub-domain or thread-block border needs a specific layout.",
  ["src/muscl/HydroRunFunctors2D.h", "src/muscl/HydroRunFunctors3D.h", "src/muscl/MHDRunFunctors2D.h", "src/muscl/MHDRunFunctors3D.h", SB],
  [("flux-difference update with one flux per face", "UpdateFunctor / ComputeFluxesAndUpdate functors")])
p("C09", "The magnetic field stays divergence free",
  "Starting from a divergence-free face-centred magnetic field, the discrete divergence of B in every interior cell stays zero to round-off at every output of the MHD solver, for every decomposition, schedule, boundary type on which the start was compatible, and implementation version.",
  ["schedules", "configurations", "inputs"],
  "all schedules and decompositions x MHD problems x implementation versions",
  "No test runs constrained transport; an electromotive force that differs on two ranks sharing an edge only shows with specific layouts.",
  ["src/muscl/MHDRunFunctors2D.h", "src/muscl/MHDRunFunctors3D.h", "src/muscl/SolverMHDMuscl.cpp", "src/muscl/MHDInitFunctors2D.h", "src/muscl/MHDInitFunctors3D.h"],
  [("curl-form update from a single edge EMF", "UpdateEmf / ComputeEmfAndUpdate / ReconstructEdgeComputeEmfAndUpdate functors")])
p("C10", "An interrupted run resumes to the same result",
  "If a finite-volume run that saves HDF5 checkpoints is killed at any instant and restarted from the last checkpoint it completed, it reaches tEnd with the same solution and the same remaining outputs (indices, times and contents) as the run that was never interrupted, for any crash point, repeated crashes, any schedule, serial or parallel, with the same or a different decomposition. (A restarted run saves its start state again under the index of the checkpoint.)",
  ["crash_points", "schedules", "configurations"],
  "all crash points and repeated crashes x solvers x decompositions x problems",
  "The restart test reloads one array once in one process layout; it never resumes a time loop nor crashes.",
  ["src/utils/io/IO_HDF5.h", "src/utils/io/IO_ReadWrite.cpp", "src/muscl/SolverHydroMuscl.h", "src/muscl/SolverMHDMuscl.h", "src/main.cpp", SB],
  [("conserved variables, time and output index stored in the file and reloaded", "Save_HDF5*, Load_HDF5*, init_restart"), ("dt recomputed from the state; ghosts refilled", "constructor / godunov_unsplit_impl")])
p("C11", "A crash never damages a completed checkpoint",
  "Once an HDF5 output has been completed it stays readable and unchanged whatever happens later: a crash at any instant of a later save, or of a restarted run that saves under the same index as the checkpoint it started from, leaves under each checkpoint's name either the complete old or the complete new content.",
  ["crash_points", "fault_sequences", "histories"],
  "all crash points inside and between saves, including restarted runs",
  "Tests never interrupt a save.",
  ["src/utils/io/IO_HDF5.h", "src/main.cpp", "src/utils/io/IO_ReadWrite.cpp"],
  [("numbered output files", "IO_HDF5 / SolverBase::save_solution")])
p("C12", "HDF5 outputs hold exactly the simulated state",
  "An HDF5 output contains, for every variable, exactly the values each rank held at the saved time at the position given by its place in the domain, with the sizes, output index and physical time recorded alongside, for every combination of ghost options and decomposition, and whatever order ranks reach the collective file operations in; benign partial or interrupted disk operations change nothing.",
  ["schedules", "configurations", "fault_sequences"],
  "all rank orders, ghost options, decompositions and benign I/O interruptions",
  "The HDF5 tests write one fixed array on at most two layouts and compare it with what the same code reads back.",
  ["src/utils/io/IO_HDF5.h", "src/utils/io/IO_HDF5.cpp"],
  [("hyperslab selection from cartesian coordinates", "Save_HDF5_mpi::save")])
p("C13", "VTK outputs hold exactly the simulated state",
  "The VTK files of a time step (image files of the finite-volume solvers, in ASCII or raw binary form, and unstructured files of the spectral-difference solver), written serially or one piece per rank, decode to the values of the simulated state (the HDF5 output of that step for the finite-volume solvers, to the precision of the format), the pieces tile the global domain exactly, and the parallel header names exactly the piece files that exist with matching extents, whatever order ranks write in and whatever benign partial writes occur.",
  ["schedules", "configurations", "fault_sequences"],
  "all rank orders, decompositions, formats and benign I/O interruptions",
  "The VTK tests only check that writing does not crash.",
  ["src/utils/io/IO_VTK.cpp", "src/utils/io/IO_VTK_SDM.h", "src/utils/io/IO_ReadWrite.cpp", "src/utils/io/IO_common.cpp"],
  [("per-rank piece writer and rank 0 header writer", "IO_VTK save_VTK_2D_mpi / save_VTK_3D_mpi / write_pvti_header")])
p("C14", "Outputs follow the requested schedule",
  "A run writes outputs with consecutive indices starting at 0 (or at the restarted index), the first holding the initial state and the last the final state, times never decrease, and between them an output appears at the first step whose time exceeds the next multiple of tEnd/nOutput, every step when nOutput is negative and none when it is zero; the XDMF index of the HDF5 outputs, in the same directory, lists exactly the saved files in order (its time stamp is the output index), whatever the schedule.",
  ["schedules", "configurations", "histories"],
  "all nOutput, tEnd, nStepmax settings x problems x decompositions x restarts",
  "No test runs the application's time loop.",
  [SB, "src/main.cpp", "src/muscl/SolverHydroMuscl.h", "src/muscl/SolverMHDMuscl.h", "src/utils/io/IO_HDF5.cpp"],
  [("interval test on saved count", "SolverBase::should_save_solution"), ("first and last save", "main"), ("time series wrapper", "writeXdmfForHdf5Wrapper")])
p("C15", "The time loop stops exactly where it was told to",
  "Physical time increases strictly from the start time, never exceeds tEnd, and the run stops either at exactly tEnd or after exactly the maximum number of steps, whichever comes first, with the final output carrying the final time; the stop is agreed by all ranks.",
  ["schedules", "configurations", "histories"],
  "all tEnd, nStepmax, cfl settings x problems x decompositions x restarts",
  "No test runs the application's time loop.",
  [SB, "src/main.cpp"], [("finished / next_iteration / dt clamp", "SolverBase")])
p("C16", "A bad restart file is never silently accepted",
  "Restarting from a checkpoint that is missing, truncated, unreadable (read errors), lacks a required field or was written for a different grid ends in a reported failure with a non-zero status; the run never proceeds on invented data. It holds on every rank, with no rank left hanging.",
  ["fault_sequences", "crash_points", "inputs"],
  "all truncation points, missing fields, grid mismatches and read-error positions x serial and parallel",
  "Tests only reload a file that was just written correctly.",
  ["src/utils/io/IO_HDF5.h", "src/utils/io/IO_ReadWrite.cpp"], [("status checks on HDF5 calls", "Load_HDF5::load, Load_HDF5_mpi::load")])
p("C17", "A failed output is never reported as success",
  "If writing an output fails (disk full, I/O error, file that cannot be created) the application reports it and ends with a non-zero status, rather than finishing as if the output were good; whenever it ends successfully every output file is complete and correct.",
  ["fault_sequences", "configurations"],
  "all positions of a persistent or transient write failure x output formats x serial and parallel",
  "Tests never make a write fail.",
  ["src/utils/io/IO_HDF5.h", "src/utils/io/IO_VTK.cpp", "src/utils/io/IO_HDF5.cpp"], [("status checks on HDF5 and stream calls", "Save_HDF5*, save_VTK*")])
p("C18", "Every rank runs with the parameter file the user gave",
  "All ranks obtain the same parameters as a single-process run reading the same file: every section, key and value, whatever the size of the file and the chunks in which the file system delivers it, and whatever the order in which ranks enter the broadcast; a parameter file that is missing or cannot be read ends the run with a reported error on all ranks instead of a run with made-up parameters.",
  ["schedules", "fault_sequences", "inputs"],
  "all schedules, read chunkings and read failures x file contents and sizes",
  "Tests read one small intact file in one process.",
  ["src/utils/config/ConfigMap.cpp", "src/utils/config/inih/ini.cpp", "src/utils/config/inih/INIReader.cpp"],
  [("rank 0 reads, broadcasts size then bytes, every rank parses", "broadcast_parameters")])
p("C19", "The communicator wrappers deliver what MPI promises",
  "Each operation of the communicator wrapper classes (point-to-point, non-blocking, broadcast, gather, all-gather, all-to-all, with equal or varying counts, reductions, barrier, cartesian ranks, coordinates, shifts and neighbours) delivers to every rank exactly the data the corresponding MPI operation defines, for all element types and sizes, under every delay, reordering across channels and buffering choice.",
  ["schedules", "inputs", "configurations"],
  "all schedules and delays x operations, types, counts, roots and communicator sizes",
  "The MPI tests exercise a handful of calls with one size and one timing.",
  ["src/utils/mpiUtils/MpiComm.cpp", "src/utils/mpiUtils/MpiComm.h", "src/utils/mpiUtils/MpiCommCart.cpp"],
  [("type and operation translation tables", "MpiComm::getDataType / getOp")])
p("C20", "An up-scaled restart prolongates the checkpoint exactly",
  "Restarting with resolution doubling gives every fine cell the value of the coarse cell containing it, so that mass, momentum and energy integrals are unchanged, and (from a checkpoint that includes ghost cells, which MHD needs) gives a magnetic field that is still divergence free, for serial and parallel runs, any schedule and with clean or interrupted reads; a checkpoint that can not be prolongated is refused.",
  ["schedules", "configurations", "fault_sequences"],
  "all decompositions and schedules x 2D/3D x hydro/MHD",
  "Only fixed-size reload is tested.",
  ["src/utils/io/IO_HDF5.h"], [("index halving on load", "Load_HDF5::copy_buffer")])
p("C21", "High-order (SDM) runs are decomposition and schedule independent",
  "The spectral-difference hydrodynamics solver (without viscous terms) gives the same solution at every output for every thread count, thread interleaving, heap content and clock, conserves mass, momentum and energy on periodic domains, and gives the same solution for every domain decomposition, rank schedule and message timing.",
  ["schedules", "configurations", "inputs"],
  "all thread and rank schedules x orders x dimensions x time integrators x problems x decompositions",
  "Tests check the SDM operators one at a time in one process; no test runs the SDM time loop, in parallel or not.",
  ["src/sdm/SolverHydroSDM.h", "src/sdm/SDM_Flux_Functors.h", "src/sdm/SDM_Run_Functors.h", "src/sdm/SDM_Boundaries_Functors.h", "src/shared/mpiBorderUtils.h"],
  [("per-direction flux sweep and halo exchange of all degrees of freedom", "SolverHydroSDM::compute_fluxes_divergence / make_boundaries_sdm_mpi")])
p("C22", "The implementation versions are interchangeable",
  "Implementation versions 0 and 1 of the hydrodynamics scheme and 0, 1 and 2 of the MHD scheme, which store fluxes, apply them immediately or recompute reconstructed states, evolve the same solution up to floating-point re-association from the same start, for every thread interleaving of the atomic updates and every decomposition.",
  ["schedules", "configurations", "inputs"],
  "all interleavings of the scatter updates x decompositions x problems x dimensions",
  "No test runs any implementation version.",
  ["src/muscl/SolverMHDMuscl.cpp", "src/muscl/MHDRunFunctors2D.h", "src/muscl/MHDRunFunctors3D.h", "src/muscl/SolverHydroMuscl.cpp", "src/muscl/HydroRunFunctors2D.h", "src/muscl/HydroRunFunctors3D.h"],
  [("store-then-update against atomic scatter", "godunov_unsplit_impl, implementationVersion 0, 1 and 2")])
p("C23", "A failure on one rank ends the whole job",
  "When one rank fails (is killed, runs out of memory, meets an error in its own part of the work, or the configuration is unusable) the job as a whole ends with a non-zero status: the other ranks never wait forever and the job never reports success. The error-polling facility reports a failure to every rank of the communicator if and only if some rank reported one.",
  ["fault_sequences", "schedules", "crash_points"],
  "all failing ranks, failure instants and kinds x decompositions",
  "Tests never make a rank fail.",
  ["src/utils/mpiUtils/GlobalMpiSession.cpp", "src/utils/mpiUtils/MpiComm.cpp", "src/utils/mpiUtils/ErrorPolling.cpp", "src/main.cpp", "src/shared/SolverFactory.h", "src/shared/HydroParams.cpp"],
  [("uncaught exception / abort ends the process, and MPI ends the job", "main"), ("collective error polling", "ErrorPolling")])
p("C24", "Density and pressure stay positive and finite",
  "On the built-in hydrodynamics and MHD problems run within their CFL limit with periodic or outflow boundaries (also reflecting ones for hydrodynamics), density stays positive, pressure stays positive (except in the magnetically dominated rotor) and no value becomes NaN or infinite at any output, for every schedule and decomposition and whatever stale memory contains.",
  ["schedules", "configurations"],
  "all schedules, decompositions and heap contents x built-in problems",
  "No test runs the finite-volume solvers.",
  ["src/muscl/HydroBaseFunctor2D.h", "src/muscl/HydroBaseFunctor3D.h", "src/muscl/MHDBaseFunctor2D.h", "src/muscl/MHDBaseFunctor3D.h", "src/shared/RiemannSolvers.h", "src/shared/RiemannSolvers_MHD.h"],
  [("slope limiting, density/pressure floors", "reconstruction and Riemann solvers")])
p("C25", "No direction or place is special",
  "Permuting the axes of a problem, mirroring it along an axis, or shifting it along a periodic axis (start state, mesh and boundary types together) permutes, mirrors or shifts every output of the run and leaves the output times unchanged. It holds for the 2D and 3D finite-volume solvers (hydrodynamics and MHD, every implementation version) and for the spectral-difference solver, for every decomposition and schedule.",
  ["schedules", "configurations", "inputs"],
  "all axis permutations, reflections and periodic shifts x decompositions and schedules x solvers, options, boundary types and start states",
  "No test runs a finite-volume solver; per-direction code (slopes, fluxes, electromotive forces, ghost exchange) is written out once per axis, and one wrong axis is visible only by comparing runs.",
  ["src/muscl/HydroRunFunctors2D.h", "src/muscl/HydroRunFunctors3D.h", "src/muscl/MHDRunFunctors2D.h", "src/muscl/MHDRunFunctors3D.h", "src/muscl/MHDBaseFunctor2D.h", "src/muscl/MHDBaseFunctor3D.h", "src/sdm/SolverHydroSDM.h", SB],
  [("directional sweeps written out per axis", "trace, slope, flux and update functors; compute_invicid_fluxes_divergence_per_dir"), ("ghost fill per face", "BoundariesFunctors.h, make_boundaries")],
  observe=["outputs written by the application"])
p("C26", "A 3D run of a plane problem is the 2D run",
  "A 3D run whose start does not depend on one of the three coordinates, with no velocity or magnetic field along it, stays independent of that coordinate and each of its layers is the output of the 2D run of the same problem, at the same times (when the cells are long enough in that direction not to limit the time step). It holds for hydrodynamics and MHD and all implementation versions, whichever axis is the ignored one, for every decomposition and schedule.",
  ["schedules", "configurations", "inputs"],
  "all choices of the ignored axis x implementation versions x decompositions and schedules x boundary types and start states",
  "No test runs a finite-volume solver in 2D or 3D.",
  ["src/muscl/HydroRunFunctors2D.h", "src/muscl/HydroRunFunctors3D.h", "src/muscl/MHDRunFunctors2D.h", "src/muscl/MHDRunFunctors3D.h", "src/muscl/SolverHydroMuscl.cpp", "src/muscl/SolverMHDMuscl.cpp"],
  [("separate 2D and 3D kernels for the same scheme", "HydroRunFunctors2D/3D.h, MHDRunFunctors2D/3D.h")],
  observe=["HDF5 outputs written by the application"])
p("C27", "Uniform flows stay uniform, and units do not matter",
  "A start with uniform density, pressure, velocity and magnetic field (none of the latter two across a reflecting wall) is exactly the state its parameters describe and stays so at every output; and a run described in other units of length, velocity and mass (factors that are powers of two, floors included) gives the same outputs in those units, with the same number of steps. It holds for the hydrodynamics, MHD and spectral-difference solvers (without the spectral-difference options that contain absolute constants), for every decomposition and schedule.",
  ["schedules", "configurations", "inputs"],
  "all uniform states and unit systems x decompositions and schedules x solvers, options and boundary types",
  "No test runs a finite-volume solver, and the tests of the spectral-difference operators do not step in time.",
  ["src/muscl/HydroInitFunctors2D.h", "src/muscl/HydroInitFunctors3D.h", "src/muscl/MHDInitFunctors2D.h", "src/muscl/MHDInitFunctors3D.h", "src/shared/RiemannSolvers.h", "src/shared/RiemannSolvers_MHD.h", "src/shared/EulerEquations.h", "src/sdm/SDM_Dt_Functor.h"],
  [("consistent fluxes and updates", "Riemann solvers, godunov_unsplit_impl"), ("dimensionally consistent time step", "compute_dt_local")],
  observe=["outputs written by the application"])
p("C28", "Observing a run does not change it",
  "The solution of a run does not depend on how it is observed: with the same parameters except the number of outputs, their format, layout, ghost layers, compression, directory and prefix, and the log interval, every saved state is bit for bit the state of that step in a run that saves every step, the last one that of the last step, at the same times, and the same final time is printed. A run asked for fewer steps or a later end time passes through the same states. It holds for the finite-volume and spectral-difference solvers, for every decomposition, schedule and disk behaviour.",
  ["schedules", "configurations", "fault_sequences"],
  "all output and logging options x solvers and problems x decompositions x schedules, slow and interrupted disk calls",
  "No test runs the same simulation twice with different output options.",
  [SB, "src/main.cpp", "src/muscl/SolverHydroMuscl.h", "src/muscl/SolverMHDMuscl.h", "src/muscl/SolverMHDMuscl.cpp", "src/sdm/SolverHydroSDM.h", "src/utils/io/IO_ReadWrite.cpp", "src/utils/io/IO_HDF5.h", "src/utils/io/IO_VTK.cpp"],
  [("writers work on a host copy", "IO_ReadWrite::save_data_impl"), ("time step independent of the output schedule", "SolverBase::compute_dt, next_iteration_impl")],
  observe=["outputs written by the application", "printed final time"])
p("C29", "Built-in start states are the ones their parameters describe",
  "The first state a run saves is the start state its parameter file describes: for every built-in problem of every solver (implode, blast, Kelvin-Helmholtz, Gresho, four-quadrant, isentropic vortex, Rayleigh-Taylor, rising bubble, disk, Orszag-Tang, rotor, field loop, linear waves, Sod, Shu-Osher, wedge, jet) each saved field equals the documented formula evaluated at the cell centres or solution points with the values of the file (or the documented defaults), conserved variables are consistent with the primitive ones (momentum is density times velocity, energy includes the kinetic and magnetic parts), and the state does not depend on the decomposition, the schedule or the number of threads.",
  ["configurations", "schedules"],
  "all built-in problems x their parameters x solvers, dimensions, orders x boxes x decompositions and schedules",
  "Tests run a few shipped parameter files and look at whether the program ends.",
  ["src/muscl/HydroInitFunctors2D.h", "src/muscl/HydroInitFunctors3D.h", "src/muscl/MHDInitFunctors2D.h", "src/muscl/MHDInitFunctors3D.h", "src/sdm/init", "src/shared/problems", "src/shared/HydroParams.cpp"],
  [("start states", "Init*Functor*::operator()"), ("their parameters", "src/shared/problems/*Params.h"), ("cell coordinates", "xmin + (i + 1/2 - ghostWidth + offset) * dx")],
  observe=["outputs written by the application"])
p("C33", "The schemes converge at their design order",
  "On smooth solutions the error of each scheme decreases at its design order under mesh refinement, for every solver, implementation version, Riemann solver, slope limiter, direction of propagation and aspect ratio of the cells; discontinuous solutions converge to the entropy solution (exact Riemann solution of shock tubes along every axis, one-dimensional interfaces of two-dimensional Riemann problems); a gas at rest in hydrostatic balance stays at rest up to the order of the scheme. It holds on every decomposition and schedule.",
  ["inputs", "configurations", "schedules"], "all smooth and discontinuous solutions with known exact form x resolutions x options x decompositions and schedules", "No convergence test exists.",
  ["src/muscl/HydroRunFunctors2D.h", "src/muscl/HydroRunFunctors3D.h", "src/muscl/HydroBaseFunctor2D.h", "src/muscl/HydroBaseFunctor3D.h", "src/muscl/MHDRunFunctors2D.h", "src/muscl/MHDRunFunctors3D.h", "src/muscl/MHDBaseFunctor2D.h", "src/muscl/MHDBaseFunctor3D.h", "src/shared/RiemannSolvers.h", "src/shared/RiemannSolvers_MHD.h", "src/sdm/SolverHydroSDM.h", "src/sdm/SDM_Run_Functors.h"],
  [("slopes, predictor and fluxes", "slope_unsplit_*, trace_unsplit_*, riemann_*, godunov_unsplit_impl"), ("constrained transport", "compute_emf, ComputeEmfAndStoreFunctor*"), ("time integrators", "SolverHydroSDM::time_int_*")],
  observe=["outputs written by the application"])
p("C36", "Gravity accelerates the gas exactly as prescribed",
  "In a run with static gravity (uniform field of the Rayleigh-Taylor and rising-bubble problems) or a point mass (disk), fresh or restarted, every cell feels the acceleration its parameters prescribe: a uniform flow on a periodic or open domain falls with the velocity v0 + g t and keeps its density and pressure; on a periodic domain mass is constant and momentum and energy change over each step by exactly the impulse and the work of the field on the mass; in one short step of gas at rest each cell's acceleration is the field at its centre; and the flow follows the accelerated frame to second order in the time step. It holds in 2D and 3D, for every implementation version, Riemann solver, slope limiter, decomposition and schedule.",
  ["inputs", "configurations", "schedules"],
  "all fields x start states x options x decompositions and schedules", "No test runs a problem with gravity.",
  ["src/muscl/HydroRunFunctors2D.h", "src/muscl/HydroRunFunctors3D.h", "src/muscl/SolverHydroMuscl.cpp", "src/muscl/SolverHydroMuscl.h", "src/muscl/HydroInitFunctors2D.h", "src/muscl/HydroInitFunctors3D.h", "src/shared/problems/PointSourceGravity.h"],
  [("source term", "GravitySourceTermFunctor2D/3D"), ("half-step predictor", "ComputeAndStoreFluxesFunctor*, ComputeTraceAndFluxes_Functor*"), ("the field, also after a restart", "init_rayleigh_taylor, init_rising_bubble, init_disk, init_restart")],
  observe=["HDF5 outputs written by the application"])
p("C37", "SDM shock capturing repairs only what it must",
  "With the limiter enabled, a stage of the spectral-difference solver replaces the polynomial of a cell by the linear one with the same averages whose slopes are the minmod, in characteristic variables and with the TVB constant M_TVB, of its mean slopes and the differences to the averages of its neighbours, exactly where this changes a slope, and leaves every other cell as it is. With positivity preserving enabled, a cell whose density is not positive at some flux point has its density pulled towards the average by the largest factor that makes it so, a cell whose pressure is not positive there is then pulled towards its average as a whole until it is, and every other cell is kept. Neither changes a cell average, and with both enabled averages of density and pressure stay positive and finite through strong explosions (HLLC solver, CFL number at most 0.1). It holds in 2D and 3D, at every order, for every decomposition, thread interleaving and schedule.",
  ["inputs", "configurations", "schedules"],
  "all states x orders x limiter constants x decompositions, thread and message schedules", "No test runs the SDM solver; which cells need repair depends on the state, and on neighbours owned by other ranks.",
  ["src/sdm/SDM_Limiter_Functors.h", "src/sdm/SDM_Positivity_preserving.h", "src/sdm/SolverHydroSDM.h", "src/shared/EulerEquations.h"],
  [("limiter", "Average_Conservative_Variables_Functor, Average_Gradient_Functor, Apply_limiter_Functor"), ("positivity", "Apply_positivity_Functor_v2"), ("order of the stages", "SolverHydroSDM::compute_fluxes_divergence")],
  observe=["VTK outputs written by the application"])
p("C38", "The parameter files that come with the code run as written",
  "Every parameter file of settings/ for a compiled-in solver (all but MOOD) runs with any mesh size, number of steps and admissible decomposition, starts from the problem it names with the parameters it gives, saves times that increase and do not pass its end time, stays finite with positive density, keeps what its boundaries keep, and gives the same run on one rank and on many. How a parameter file is spelled does not matter: the order of sections and keys, the case of their names, comments and blanks, and equivalent spellings of booleans and numbers.",
  ["inputs", "configurations", "schedules"],
  "shipped files x sizes x spellings x decompositions and schedules", "The tests run none of these files; what they exercise is the combination of options real users start from.",
  ["settings", "src/utils/config/ConfigMap.cpp", "src/utils/config/inih/INIReader.cpp", "src/utils/config/inih/ini.cpp", "src/shared/HydroParams.cpp", "src/muscl/SolverHydroMuscl.h", "src/muscl/SolverMHDMuscl.h", "src/sdm/SolverHydroSDM.h"],
  [("reading", "ini_parse, INIReader::makeKey, ConfigMap::get*"), ("problem names", "SolverHydroMuscl/SolverMHDMuscl/SolverHydroSDM::init")],
  observe=["HDF5 and VTK outputs written by the application"])
p("C39", "What a run holds on to does not grow with its length",
  "The memory, open files, open HDF5 objects (files, datasets, dataspaces, types, attributes, property lists) and MPI handles (requests, communicators, datatypes, groups) a rank holds are the same at the same point of every step and every output: a run of many steps and outputs, in any solver, format and decomposition, needs no more than a short one, so that a long job is not ended by exhaustion.",
  ["inputs", "configurations", "schedules", "histories"],
  "lengths of runs x output options x decompositions and schedules", "The tests make at most a few outputs and do not look at what is left open.",
  ["src/utils/io/IO_HDF5.h", "src/utils/io/IO_VTK.cpp", "src/utils/io/IO_ReadWrite.cpp", "src/shared/SolverBase.cpp", "src/utils/mpiUtils", "src/muscl", "src/sdm"],
  [("handles of an output", "Save_HDF5::save, Save_HDF5_mpi::save, save_VTK_*"), ("buffers of a step", "SolverBase::make_boundaries_mpi, next_iteration_impl")],
  observe=["allocations, file descriptors, HDF5 and MPI handles counted by the simulator"])
# pure functions: stated, not claimed
p("C30", "Riemann solvers are consistent and symmetric",
  "Every approximate Riemann solver returns the physical flux when both states are equal, respects mirror symmetry, and returns the upwind flux for supersonic states.",
  ["inputs"], "all pairs of admissible states", "Tests do not exercise the Riemann solvers.",
  ["src/shared/RiemannSolvers.h", "src/shared/RiemannSolvers_MHD.h"], [("wave-speed estimates and star states", "riemann_* functions")])
p("C31", "Euler eigenvectors diagonalise the flux Jacobian",
  "For every admissible state the left and right eigenvector matrices are inverse of each other and diagonalise the Euler flux Jacobian with the stated eigenvalues.",
  ["inputs"], "all admissible states", "The existing test samples a few states.",
  ["src/shared/EulerEquations.h"], [("eigenvector matrices", "EulerEquations")])
p("C32", "SDM interpolation is exact on polynomials",
  "Lagrange interpolation between solution and flux points and the derivative operator are exact for polynomials up to the scheme's degree, at every supported order.",
  ["inputs"], "all polynomials of the supported degree", "Existing tests sample a few functions.",
  ["src/sdm/SDM_Geometry.h", "src/sdm/SDM_Interpolate_Functors.h"], [("Lagrange matrices", "SDM_Geometry")])
p("C34", "MOOD reconstruction is exact on polynomials",
  "The MOOD polynomial reconstruction reproduces every polynomial of its degree from cell averages, and falls back to lower degree exactly where its admissibility criteria fail.",
  ["inputs"], "all polynomials, stencils and degrees", "Tests are not built at this commit.",
  ["src/mood"], [("least-squares reconstruction", "mood")])
p("C35", "Typed parameter access follows the written value",
  "A parameter read as integer, real, boolean or string yields the value written in the file, or the caller's default when it is absent.",
  ["inputs"], "all keys, types and spellings", "The test reads a few keys.",
  ["src/utils/config/ConfigMap.cpp", "src/utils/config/inih/INIReader.cpp"], [("text conversion", "ConfigMap::getFloat etc.")])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for d in P: f.write(json.dumps(d) + "\n")
    print(len(P), "properties")
