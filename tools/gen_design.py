import sys; sys.path.insert(0,'/verif')
import json
from dst import engine
props={}
for l in open('/verif/properties.jsonl'):
    p=json.loads(l); props[p['id']]=p
HEAD='''# Deterministic simulation of ppkMHD — design

## 1. What is simulated

ppkMHD is one executable: `main` reads a parameter file, broadcasts it, builds a solver (MUSCL hydrodynamics,
ideal MHD, spectral-difference hydrodynamics), runs a time loop in which every rank executes Kokkos kernels,
exchanges ghost cells, agrees on a time step and writes (and possibly first reads) files.  It has many parties
(ranks), threads inside each rank, clocks, disk, memory whose content is undefined, and processes that die — and
its guarantees are about what the *global* run produces whatever those do.

The whole application, `src/main.cpp` and everything below it, is compiled **unmodified, without any hook in
/repo**, from /repo's current working tree into a shared object (`sim/build.py`; images are cached under a hash of the
sources, in `/verif/build`, git-ignored).  One simulator process (`sim/rt`) loads one copy of that object per MPI rank,
so that every rank has its own globals, and runs every rank as a fiber.  Every source of nondeterminism is behind a
link-level seam that the code already has:

| seam | stands in for | what the seed decides |
|---|---|---|
| `sim/include/mpi.h`, `sim/rt/mpi.cpp` | the MPI library (stub, ~70 functions) | which rank runs next at every call; eager or rendezvous per message size; message delay, order between channels, late reading of send buffers and late filling of receive buffers; order of reductions; numbering of ranks in a cartesian communicator; how strictly collectives synchronise; stalls; errors; death of a rank |
| `sim/rt/omp.cpp` | libgomp (stub); the **real** Kokkos OpenMP back end runs on it | number of virtual threads, order of threads, preemption at any instrumented memory access (`-fsanitize=thread` call-backs are implemented by the simulator); a happens-before race detector |
| `sim/rt/disk.cpp` | libc file calls of the application, libstdc++ and libhdf5 | short and interrupted transfers, errors (any errno, any operation, transient or lasting, per path or rank), full disk after n bytes, torn writes, death in the middle of an operation |
| `sim/include/hdf5.h`, `sim/rt/hdf5.cpp` | the parallel HDF5 driver (stub) over the **real** serial HDF5 library | order in which ranks reach collective calls; argument agreement is checked |
| clocks (`gettimeofday`, `time`, `clock_gettime`, `omp_get_wtime`, `MPI_Wtime`) | — | start date, rate, jumps forwards and backwards |
| `malloc`/`operator new` | — | content of fresh and recycled memory (zero, 0xff, signalling NaN, random), failing allocations |

One 48-bit seed decides all of that: one seed is one execution.  The process runs at fixed addresses with a fixed
environment; every decision and event goes into a trace hash, which is compared when cases are repeated
(`determinism_probe` in the evidence: a few cases of every run of a check are executed twice) and when a replay file is run.

Liveness is bounded: a run that needs more than 2 million scheduling events, or where no fiber can run, is a
violation (deadlock, livelock), and so is anything the simulated MPI sees while the run proceeds (unmatched, truncated
or mistyped messages, collective mismatch, buffer reuse, leaks at finalise).

### The search engine (`dst/engine.py`)

`check.py ID [quick|thorough]`: case i of seed s is drawn by `random.Random("ID/s/i")`; it fixes input, configuration,
schedule plan and faults.  Cases run on 8 worker processes in scratch directories under /dev/shm.  A violation is
first reproduced twice in fresh processes, then minimised (calmer simulator knobs, schedule plan cut off after n
decisions, fewer preemptions and faults, fewer steps, smaller grids — whatever still fails), and written as a replay
file under `/verif/out`: complete scenario, fault list and fingerprint; `check.py ID --replay F` executes exactly that.
The quick tier uses the fixed number of cases below or 240 s, whichever is first; `thorough` is the same search with
20–40 times the cases (50 min bound).  `VERIF_SEED` selects the seed.

Evidence (`/verif/evidence/<id>.json`): runs and seeds per hour, simulated seconds, each fault kind with the number of times
it fired, number of distinct interleavings (distinct hashes of the complete event and scheduling trace), scheduling
decisions, messages, preemptions, accesses checked by the race detector, property-specific measures, and the lists of
real and stubbed components.

### What the simulator can not show

* MPI, libgomp and the parallel HDF5 driver are models.  Bugs that only exist in the interplay with one particular library
  (for example a real progress engine) are outside; a model more permissive than MPI would miss bugs, so the model is as
  *strict* as the standard (rendezvous at size 0 is a legal choice, and is chosen often).
* Virtual threads are preempted at memory accesses, with sequentially consistent memory: weak-memory effects are outside,
  except that any data race is reported as such.  3D `MDRange` tiles of the Kokkos CPU back end never split k between
  threads for the sizes used, so conflicts between k neighbours can not show (they can not on any CPU run either).
* Crash means process crash: completed writes survive.  Power failure is outside, as neither HDF5 nor ppkMHD asks for
  durability (no fsync).
* GPU back ends, PNETCDF output, MOOD solvers (not reachable from the factory at this commit), and the p4est tree are not built
  here, as they are not by `/opt/vp/build.sh`.
'''
D={
'C01':('exact','Oracle: the same job on one rank (and, in a part of the cases, the build without MPI). Decomposition, rank numbering, message timing and reduction order are drawn per case; all outputs of all steps are compared. The tests never run two ranks of a solver.'),
'C02':('exact','As C01 for MHD: staggered field, ghost width 3, three implementation versions, constrained transport across sub-domain edges, all Riemann solvers.'),
'C03':('bits','Oracle: a separable index map, written from the statement, that says for every ghost cell which global cell (and sign) it must show. Distinct random values in every cell and component make any misplaced value visible; ghost layers of the start file are poisoned; later dumps show stale ghosts.'),
'C04':('protocol','Oracle: the simulated MPI itself judges each call while the run proceeds, under adversarial buffering and timing that a real MPI chooses rarely (rendezvous for every message, minimal synchronisation in collectives).'),
'C05':('1e-8','Oracle: a NumPy computation of every cell’s signal rate from the stored global state.'),
'C06':('races, bits','Oracle: happens-before race detector over every instrumented access (fork, join, barrier, atomics) plus comparison with the one-thread execution. Preemptions are placed at arbitrary memory accesses.'),
'C07':('bits','Metamorphic: two worlds (heap content, dates, clock jumps, speeds, timings), one answer.'),
'C08':('1e-11','Oracle: the global integrals of the first output.'),
'C09':('1e-11','Oracle: discrete divergence by the definition of constrained transport.'),
'C10':('1e-9','Crash and recovery: job killed at sampled events and disk operations, restarted (same or other decomposition or build), up to three times; oracle: the uninterrupted run.'),
'C11':('bits','Crash consistency: for every name, complete old or complete new content. Oracle: the undisturbed second job on a copy of the directory.'),
'C12':('bits','Oracle: independent model of each file layout, start state, one-rank run; the XDMF index must describe the files as they are.'),
'C13':('bits or printed precision','Oracle: independent VTK reader (image and unstructured files, ASCII and raw) against the HDF5 output of the same step; tiling and header consistency.'),
'C14':('exact','Oracle: reference model of the output schedule fed with the times of a companion run that saves every step.'),
'C15':('1e-12','Oracle: the stopping rule over the recorded times, printed final time on every rank.'),
'C16':('exact','Fault injection on the read path and spoiled files; oracle: reported failure everywhere or exactly the outputs of the intact run.'),
'C17':('exact','Fault injection on the write path; oracle: reported failure or exactly the files of the undisturbed run.'),
'C18':('exact','Oracle: independent model of the INI dialect; each rank’s map; chunked and failing reads; equivalent decorated files through the whole application.'),
'C19':('bits','Model-based: random communicator programs on the real wrapper classes, each buffer (gaps, guard slots) compared with a direct model of the MPI operation.'),
'C20':('bits','Oracle: independent prolongation (constant in cells, divergence-preserving on faces).'),
'C21':('1e-10','Oracle: one-rank one-thread run, quadrature integrals.'),
'C22':('1e-10','Metamorphic between implementation versions under preemption of the atomic updates.'),
'C23':('exact','Fault injection: death of a rank, failing allocations and MPI calls, unusable configurations; random polling programs against a model.'),
'C24':('sign, finiteness','Invariant over every output of every built-in problem under hostile heap contents.'),
'C25':('1e-9','Metamorphic: an undisturbed one-rank run of the original problem is the reference for the permuted, mirrored or shifted problem on many ranks under an adversarial schedule. The schedule and the decomposition break the symmetry of place, the transformation that of direction, so any kernel, exchange or start that treats one axis or one rank differently shows.'),
'C26':('1e-9','Metamorphic: the 2D run is the reference for the layers of the 3D run on many ranks under an adversarial schedule; the ignored axis is drawn. The 2D and 3D kernels are separate code for the same scheme.'),
'C27':('1e-11 / 1e-10','Invariant (uniform start) and metamorphic (units): multiplication by powers of two commutes with floating-point arithmetic, so a dimensionally inconsistent term shows at once.'),
'C28':('bits','Metamorphic: the reference saves every step on a calm machine; the subject saves, logs and ends otherwise on a hostile one. Whatever a writer, the log or the schedule leaves behind in the solver shows in a later state.'),
'C29':('2e-11 of the scale','Oracle: an independent implementation, in numpy, of the formula of each built-in start state and of the reading of its parameters (single precision, defaults), at cell centres, faces or solution points. The run is a whole job under the simulator (decomposition, schedule, threads), so that offsets of a sub-domain are part of what is checked.'),
'C33':('demanded rates, see RULE','Oracle: exact solutions (eigenmodes of the linearised Euler and MHD equations written from the textbook, the exact Riemann solution, an isentropic vortex, hydrostatic rest) and a separate 1D MHD solver. A pair of runs at two resolutions, each with its own decomposition and adversarial schedule; the fall of the error, and its size on the fine mesh, have to be what the order of the scheme demands. This catches changes that stay conservative, symmetric, translation invariant and deterministic, but are no longer the scheme (a dropped predictor term, the wrong mesh width in a slope, a star state with a wrong factor).'),
'C36':('1e-11','Invariant and budget: in an accelerated frame a uniform flow is at rest, so its outputs are known exactly; on a periodic domain the fluxes cancel in the sums, so what is left is the impulse and the work of the field, computed in the harness from the outputs of both ends of a step; a step of 1e-7 shows the field cell by cell. The half-step predictor is seen in the phase of a density wave falling through the box (first order in the time step without it).'),
'C38':('1e-10; starts 2e-11','Metamorphic and model: the text of a shipped file, with only sizes, steps and output format replaced, against the same file respelled and run on another decomposition under an adversarial schedule; the first output against the start-state models of C29; the sums a periodic box keeps. Found that the shipped field-loop files silently ran the Orszag-Tang vortex.'),
'C39':('128 bytes or a third of a handle per output','Ledger: the simulator owns malloc, the descriptors and the MPI layer, so it knows for every rank what is alive (bytes, blocks, descriptors, HDF5 identifiers, MPI handles and requests); it takes a sample whenever a rank opens an output, checkpoint or xdmf file for writing. The least sample of the second half of a run must not exceed that of the first half by more than the tolerance per output: a block, handle or open file lost per output or per step grows with the run, buffers filled once do not. Found that every parallel HDF5 output left one dataspace open.'),
'C37':('1e-8 of the scale','Refinement against an executable model (numpy: quadrature averages, mean slopes, numerically inverted eigenvector matrices, minmod; interpolation to flux points and pulling factors). One stage of vanishing time step exposes the repaired state of every cell; the model starts from the saved initial state of the same run, so neither start nor fluxes matter. Neighbour averages come from other ranks and from periodic ghosts under an adversarial schedule.'),
}
out=[HEAD,'\n## 2. Properties, oracles, bounds\n','\nDeciding method of all of them: seeded deterministic simulation of whole jobs (level "exploration": nothing is proved).\nCosts are quick-tier times on 8 idle cores after a cold build of 25–60 s.\n']
ev={}
for k in D:
    m=engine.load(k); p=props[k]
    try: e=json.load(open('/verif/evidence/%s.json'%k)); w='%.0f s'%e['wall_s']
    except OSError: w='?'
    out.append('\n### %s — %s\n\n%s\n\n*Generated and judged.* %s\n\n*Comparison:* %s. *Cases:* quick %d, thorough %d.  *Bounds/assumptions:* %s.\n\n*Why tests can not settle it:* %s\n'%(k,p['title'],D[k][1],m.RULE,D[k][0],m.CASES['quick'],m.CASES['thorough'],'; '.join(m.ASSUME) or 'none',p['why_tests_cant']))
out.append('''
### Not applicable (C30–C32, C34, C35)

Pure functions of their arguments with no schedule, clock, I/O, randomness or second party for a simulator to decide:
Riemann solvers (C30), Euler eigenvectors (C31), SDM interpolation operators (C32), MOOD reconstruction
(C34, also not reachable from the solver factory), typed access to one parameter (C35; what depends on ranks and I/O is C18).
A simulator would only be a slow random tester for them, i.e. another technique.  (Seeded simulation does exercise this
code in C05, C08, C21, C24, C27, C33, C36–C39, but does not decide these properties.)
''')
tail=open('/verif/tools/design_tail.md').read()
import glob
rows=['| bug | caught by | what it needs to show |','|---|---|---|']
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(f)); rows.append('| %s | %s | %s |'%(f.split('/')[-2],m['property'],' '.join(m['needs'].split()).replace('|','/')))
out.append(tail.replace('@@SEEDED@@','\n'.join(rows)))
open('/verif/DESIGN.md','w').write(''.join(out))
