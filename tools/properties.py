#!/usr/bin/env python3
# Writes properties.jsonl (kept as a program because the JSON lines are unreadable).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    d["anchors"]["hook_needed"] = None
    P.append(d)

p("C01", "A decomposed run computes the same solution as a single-process run",
  "For every supported equation, flux, reconstruction, integrator, boundary condition, diffusion operator and dimension, running the simulation on several processes yields, at every saved time, the same solution (up to floating-point rounding) and the same sequence of time steps as running it on one process. This holds whatever the relative speed of the processes and of their communication threads and whenever messages are delivered; the run never deadlocks and never reads data that has not arrived. Local grids are at least as wide as the ghost layer; narrower ones are refused.",
  ["schedules", "configurations", "inputs"], "every process grid of the stated sizes, every configuration of the matrix, every interleaving of ranks, exchange threads and message deliveries within the deviation bound",
  "The tests run one MPI layout with whatever schedule the machine produces and compare nothing against a serial run; overlap of computation and exchange can only go wrong on schedules a test does not choose.",
  ["alsfvm/include/alsfvm/simulator/ConservedSystem.hpp", "alsfvm/src/simulator/ConservedSystem.cpp", "alsfvm/src/mpi/CartesianCellExchanger.cpp", "alsfvm/src/integrator/WaveSpeedAdjuster.cpp", "alsfvm/src/simulator/Simulator.cpp"],
  [("exchange thread overlapped with interior flux computation", "alsfvm/src/simulator/ConservedSystem.cpp operator()"), ("point-to-point halo messages", "alsfvm/src/mpi/CartesianCellExchanger.cpp exchangeCells"), ("global maximum of wave speeds", "alsfvm/src/mpi/CartesianCellExchanger.cpp adjustWaveSpeed")],
  ["snapshots handed to writers", "time-step sequence"])
p("C02", "Halo exchange delivers every neighbour's boundary cells",
  "After a halo exchange has been waited for, every face ghost layer of every local grid holds exactly the values of the globally adjacent cells (periodic wrap-around or the local boundary condition at the domain edge), for every number of variables, ghost width and process grid, and interior cells are unchanged (local grids at least as wide as the ghost layer; narrower ones are refused). Repeated exchanges never mix rounds, variables or sides, under any message timing, and the global maximum is the same on all processes.",
  ["schedules", "configurations", "histories"], "1-3 dimensions, every process grid up to the bound, ghost widths 1-4, periodic and Neumann boundaries, two consecutive exchanges, all message schedules within the deviation bound",
  "Unit tests exchange once on a fixed grid with one schedule; wrong tags, swapped sides or early reads only show with equal neighbours (two processes periodic), several variables or late delivery.",
  ["alsfvm/src/mpi/CartesianCellExchanger.cpp", "alsfvm/src/mpi/CellExchanger.cpp", "alsfvm/include/alsfvm/mpi/cartesian/number_of_segments.hpp", "alsfvm/src/mpi/Request.cpp"],
  [("datatypes for sides and Isend/Irecv with tags", "alsfvm/src/mpi/CartesianCellExchanger.cpp"), ("waiting for requests", "alsfvm/src/mpi/RequestContainer.cpp")], ["volume contents after waitForAll"])
p("C03", "Domain decomposition tiles the global grid exactly",
  "For every global grid and process grid, the local grids are disjoint and cover the global grid exactly, with the same cell size, the right physical origin and cell midpoints, the right neighbour in each direction and the physical boundary condition only on sides at the domain edge. A grid that cannot be divided evenly is refused on every process instead of losing cells.",
  ["configurations"], "every global size up to the bound per direction times every process grid up to the bound, 1-3 dimensions, non-unit and shifted domains, periodic and Neumann",
  "Tests cover a few square layouts; a mixed-up direction, rank numbering or off-by-one offset needs non-symmetric sizes and process counts.",
  ["alsfvm/src/mpi/domain/CartesianDecomposition.cpp", "alsfvm/src/grid/Grid.cpp"],
  [("local grid construction and neighbour ranks", "alsfvm/src/mpi/domain/CartesianDecomposition.cpp decomposePrivate"), ("rank index helpers", "alsfvm/include/alsfvm/mpi/cartesian/rank_index.hpp")], ["local grids returned by decompose"])
p("C04", "Solutions are saved exactly at the requested times, each exactly once",
  "When a run asks for N equally spaced saves until the end time (with or without the initial one), exactly those saves are written, each at its requested time up to rounding, in increasing order, none lost and none duplicated, for every sequence of time-step sizes the solver may propose. The same holds for each of several writers and functionals with different save counts in one run.",
  ["inputs", "configurations", "histories"], "every sequence over a small alphabet of proposed step sizes (down to bounds), every save count and end time in the set, combinations of writers",
  "Tests run one step-size sequence; missing or double saves arise from step sizes landing on, just before or just after a save time.",
  ["alsfvm/src/io/FixedIntervalWriter.cpp", "alsfvm/src/integrator/TimestepAdjuster.cpp", "alsfvm/src/integrator/Integrator.cpp", "alsfvm/src/functional/TimeIntegrationFunctional.cpp", "alsfvm/src/config/SimulatorSetup.cpp"],
  [("time-step clipping to next save", "alsfvm/src/io/FixedIntervalWriter.cpp adjustTimestep/write")], ["times at which writers are called"])
p("C05", "Time steps obey the CFL condition and the run reaches its end time",
  "Every time step taken satisfies the configured CFL bound computed from the true maximal wave speeds, over the whole domain and in every direction, of the cells at the start of the step (and, for approximate Riemann solvers and reconstructed schemes, of the interface states and averages derived from them), and is as large as that bound unless shortened to hit a save time. States in which nothing moves have no bound. Time increases strictly by the step reported to writers, and the run ends at the first step at or beyond its end time.",
  ["inputs", "configurations", "histories"], "every initial word over a small alphabet of cell states, every equation and dimension, cfl numbers, step by step until the end time",
  "Tests check single hand-computed steps; a wave speed missed in a slab, direction or process only matters for data whose fastest wave is located there.",
  ["alsfvm/src/integrator/Integrator.cpp", "alsfvm/src/simulator/ConservedSystem.cpp", "alsfvm/src/numflux/NumericalFluxCPU.cpp", "alsfvm/src/simulator/Simulator.cpp", "alsfvm/src/simulator/TimestepInformation.cpp"],
  [("dt from wave speeds", "alsfvm/src/integrator/Integrator.cpp computeTimestep")], ["TimestepInformation seen by writers"])
p("C06", "Time-averaged outputs integrate exactly the requested windows",
  "A time-averaged snapshot written for time t and radius r equals the time-weighted mean of the solution over the steps inside that window, and a time-integrated functional the sum of its values weighted by the time inside the window (a step counts for the part inside), and coarse-grained saves contain the requested number of saves at the requested times. Each requested window is written once, and no finite sequence of time steps or early end of the run makes output invalid or crashes the run.",
  ["inputs", "histories", "configurations"], "every sequence of step sizes over a small alphabet relative to every window position, radius and snapshot count in the sets",
  "The tests do not exercise windows that start at zero, fall between steps, overlap or lie past the end of the run.",
  ["alsfvm/src/io/TimeIntegratedWriter.cpp", "alsfvm/src/io/CoarseGrainingIntervalWriter.cpp", "alsfvm/src/functional/TimeIntegrationFunctional.cpp", "alsfvm/src/io/WriterFactory.cpp"],
  [("accumulation of the window", "alsfvm/src/io/TimeIntegratedWriter.cpp write"), ("coarse saves", "alsfvm/src/io/CoarseGrainingIntervalWriter.cpp")], ["volumes handed to the underlying writer"])
p("C07", "Periodic runs conserve every conserved quantity; constant states stay put",
  "On periodic domains the total of each conserved variable is unchanged by every time step up to rounding, and a spatially constant admissible state is a fixed point of every scheme on every grid and boundary condition (states in which some wave moves, so that a finite time step exists). This holds for every equation, flux, reconstruction, diffusion operator, integrator and dimension.",
  ["inputs", "configurations"], "every word over a small alphabet of cell states on small grids, every configuration of the matrix, several steps",
  "Tests check conservation nowhere; a flux difference evaluated twice with different indices only breaks for special neighbouring states or at slab boundaries.",
  ["alsfvm/src/numflux/NumericalFluxCPU.cpp", "alsfvm/src/simulator/ConservedSystem.cpp", "alsfvm/src/integrator/RungeKutta2.cpp", "alsfvm/src/diffusion/TecnoDiffusionCPU.cpp"],
  [("telescoping flux differences", "alsfvm/src/numflux/NumericalFluxCPU.cpp computeNetFlux"), ("interior/slab split", "alsfvm/src/simulator/ConservedSystem.cpp")], ["cell averages after each step"])
p("C08", "Numerical fluxes are consistent and respect reflection and equal directions",
  "For every equation and every flux function, equal left and right states give exactly the physical flux (up to rounding), and almost equal ones nearly so, in every direction. Approximate Riemann solvers for the Euler equations respect mirror symmetry, treat every coordinate direction alike, and upwind correctly when all waves travel in one direction; scalar upwind-type fluxes agree with the exact upwind flux there.",
  ["inputs", "configurations"], "all pairs of states from a grid of admissible states including equal, transonic, supersonic, shear and stationary ones; all directions and dimensions",
  "Unit tests evaluate one or two states per flux; errors live in branches selected by wave-speed signs and in velocity components of the second and third direction.",
  ["alsfvm/include/alsfvm/numflux", "alsfvm/include/alsfvm/equation", "alsfvm/src/numflux"],
  [("flux functions", "alsfvm/include/alsfvm/numflux/euler/HLL.hpp, HLL3.hpp, Tecno1.hpp, burgers/*.hpp, scalar/*.hpp")], ["flux values", "one-step update of real simulations"])
p("C09", "Monotone schemes satisfy the maximum principle and TVD; Euler stays positive",
  "With a first-order monotone flux (and with slope-limited second-order reconstruction and strong-stability-preserving integration for scalar problems) under the CFL condition, scalar solutions never leave the range of the initial data and never increase total variation in one dimension; monotone fluxes preserve the order of solutions and open expansions through sonic points. The first-order HLL Euler scheme keeps density and pressure positive for admissible data, and so does the three-wave scheme (in several dimensions for moderate jumps).",
  ["inputs", "histories"], "all initial words over a small alphabet on small periodic and Neumann grids, several steps, every monotone flux and scalar equation; Euler states from a grid of densities, velocities and pressures",
  "Tests only check that runs finish without invalid values for a handful of initial data.",
  ["alsfvm/include/alsfvm/numflux", "alsfvm/include/alsfvm/numflux/burgers", "alsfvm/include/alsfvm/numflux/euler", "alsfvm/include/alsfvm/reconstruction/MM.hpp", "alsfvm/src/integrator"],
  [("monotone fluxes, limiters, SSP stages", "alsfvm/include/alsfvm/numflux, alsfvm/include/alsfvm/reconstruction")], ["cell averages after each step"])
p("C10", "Reconstruction is exact on smooth stencils, symmetric and non-oscillatory",
  "Each reconstruction reproduces constants exactly and the polynomial (or weighted) edge values its order promises, gives mirrored results on mirrored data (unless two candidate stencils tie), treats directions alike, and picks for essentially non-oscillatory schemes the least oscillatory stencil; limited reconstructions stay within the range of neighbouring averages. It fills every cell the flux needs, and only depends on the cells of its stencil.",
  ["inputs", "configurations"], "all words over a small alphabet of cell values as long as the stencil, every reconstruction and order, all directions and positions in the grid",
  "Tests compare one smooth function's convergence or finite values; stencil selection branches are a finite set that only enumeration covers.",
  ["alsfvm/src/reconstruction/ENOCPU.cpp", "alsfvm/src/reconstruction/WENOCPU.cpp", "alsfvm/include/alsfvm/reconstruction/WENO2.hpp", "alsfvm/include/alsfvm/reconstruction/MC.hpp", "alsfvm/include/alsfvm/reconstruction/MM.hpp", "alsfvm/src/reconstruction/tecno/ENOCPU.cpp"],
  [("divided differences and stencil shift", "alsfvm/src/reconstruction/ENOCPU.cpp"), ("smoothness weights", "alsfvm/src/reconstruction/WENOCPU.cpp")], ["left/right edge volumes"])
p("C11", "Every coordinate direction is treated alike",
  "A problem that varies along one direction only gives the same solution along y or z as along x, on any shape of domain and also when cell sizes differ between directions; transposing, mirroring or translating periodic initial data transposes, mirrors or translates the solution. Data that are constant in a direction stay constant in that direction, and agree with the lower-dimensional run.",
  ["inputs", "configurations"], "initial words over a small alphabet, all permutations of axes, reflections and shifts, grids with unequal cell counts and cell sizes, all configurations of the matrix",
  "Tests use square grids and one direction.",
  ["alsfvm/src/numflux/NumericalFluxCPU.cpp", "alsfvm/src/integrator", "alsfvm/include/alsfvm/numflux/euler", "alsfvm/src/diffusion"],
  [("per-direction flux with swapped components", "alsfvm/src/numflux/NumericalFluxCPU.cpp"), ("scaling by cell size", "alsfvm/src/integrator")], ["cell averages after each step"])
p("C12", "Boundary conditions fill the ghost cells they promise",
  "Periodic boundaries make the ghost cells equal to the wrapped interior cells and Neumann boundaries equal to the mirrored interior cells on every side, for every ghost width, grid size, dimension and variable; sides belonging to a neighbour process and all interior cells are left untouched. Grids narrower than the ghost layer are refused.",
  ["inputs", "configurations"], "all grid sizes up to the bound per direction, ghost widths 1-4, 1-3 dimensions, every combination of physical sides and sides belonging to a neighbour process",
  "Tests check a single ghost width or dimension; corner offsets and sizes near the ghost width are not reached.",
  ["alsfvm/src/boundary/BoundaryCPU.cpp", "alsfvm/include/alsfvm/boundary/Periodic.hpp", "alsfvm/include/alsfvm/boundary/Neumann.hpp", "alsfvm/src/boundary/BoundaryFactory.cpp"],
  [("per-side ghost loops", "alsfvm/src/boundary/BoundaryCPU.cpp")], ["ghost cells after applying the boundary"])
p("C13", "A run never continues or saves past an invalid state",
  "If a step produces a state that violates the equation's constraints (not-a-number, infinity, non-positive density or pressure) anywhere in the domain, the run reports an error at that step, before that state is handed to any writer or functional, on a single process and on the process owning the invalid cell of a decomposed run. Valid states are never rejected.",
  ["inputs", "fault_sequences", "configurations"], "every cell, variable, invalid value and step at which the invalid value can appear, for every equation and dimension, single and decomposed",
  "Tests feed one invalid state in one cell; missed cells at edges or missed variables are not noticed.",
  ["alsfvm/src/simulator/Simulator.cpp", "alsfvm/src/equation/CPUCellComputer.cpp", "alsfvm/include/alsfvm/equation/euler/Euler.hpp", "alsutils/include/alsutils/error/Exception.hpp"],
  [("constraint check after each step", "alsfvm/src/simulator/Simulator.cpp performStep/checkConstraints"), ("obeysConstraints", "alsfvm/src/equation/CPUCellComputer.cpp")], ["exception from the step", "writer calls"])
p("C14", "Volume and memory operations compute what a plain array model computes",
  "Every element-wise operation, norm, total variation, statistic, copy, view and interpolation on simulation volumes gives the result of the same operation on a plain array indexed by (variable, x, y, z), touches only the cells it promises, and refuses operands of different size. Ghost cells never leak into interior results.",
  ["inputs", "programs"], "all sequences of operations up to the depth bound on small volumes of every shape and ghost width, values over a small alphabet",
  "Tests apply one operation on one shape.",
  ["alsfvm/src/volume/Volume.cpp", "alsfvm/src/memory/HostMemory.cpp", "alsfvm/include/alsfvm/volume/interpolate.hpp", "alsfvm/include/alsfvm/volume/volume_foreach.hpp", "alsfvm/src/memory/Memory.cpp"],
  [("host memory arithmetic", "alsfvm/src/memory/HostMemory.cpp"), ("volume wrappers and index helpers", "alsfvm/src/volume/Volume.cpp")], ["volume contents and returned values"])
p("C15", "Queued output preserves order and content under every interleaving",
  "When threads hand snapshots to the output queue, each is handled exactly once, in the order it was handed over, with the content it had then (every variable and cell, ghost cells included), and is not modified while it is being handled, whatever the relative speed of the two sides. A full queue makes the writer wait and an empty one the reader, never longer than needed: as long as one side goes on, the other never stays blocked. A handler that fails loses no other snapshot, and no access of the two sides races.",
  ["schedules", "histories"], "queue sizes 1-3, up to the bound of writes, several writers and readers, every interleaving of the threads within the preemption bound including spurious wake-ups",
  "A test sees the one schedule the machine happens to produce.",
  ["alsfvm/src/io/QueueWriter.cpp", "alsfvm/include/alsfvm/io/QueueWriter.hpp"],
  [("mutex, condition variable and ring of volumes", "alsfvm/src/io/QueueWriter.cpp")], ["snapshots the handlers receive"])
p("C16", "Concurrent use of shared services is free of data races",
  "Services used from several threads of one process at once (timing statistics fed by the halo-exchange thread, output in the background, shared caches and logging) never race, for every interleaving of the threads the program itself creates; in particular no cell is read or written by the computation while the halo exchange receives into it or sends from it. Counts and totals they keep equal those of some sequential order.",
  ["schedules"], "all schedules within the deviation bound of decomposed time steps with their exchange thread, checked access by access with happens-before",
  "Unsynchronised updates almost never produce a visible failure in a test run.",
  ["alsutils/src/timer/TimerDatabase.cpp", "alsutils/src/timer/TimerData.cpp", "alsutils/include/alsutils/timer/Timer.hpp", "alsfvm/src/simulator/ConservedSystem.cpp", "alsutils/src/io/TextFileCache.cpp"],
  [("locks around shared maps", "alsutils/src/timer"), ("exchange thread", "alsfvm/src/simulator/ConservedSystem.cpp")], ["memory accesses of the running code", "timer counts"])
p("C17", "What is written to disk is what was computed, serial or parallel",
  "Reading a saved file gives back, for every variable and every cell, the value the solution had at that time, at the right (x, y, z) index, and, in the netCDF formats, the time and every attribute (values of repeated configuration nodes too); a file written by several processes together is identical in content to the one a single process writes. Snapshot and sample numbering never collides or overwrites earlier output of the run.",
  ["configurations", "schedules", "histories"], "1-3 dimensions with all-different sizes, every process grid up to the bound, several snapshots, every file format built",
  "Tests write files but read back little, on cubic grids where swapped axes are invisible.",
  ["alsfvm/src/io/HDF5Writer.cpp", "alsfvm/src/io/NetCDFWriter.cpp", "alsfvm/src/io/NetCDFMPIWriter.cpp", "alsfvm/src/io/netcdf_write_attributes.cpp", "alsfvm/include/alsfvm/io/netcdf_utils.hpp"],
  [("dimension order and offsets", "alsfvm/src/io/NetCDFMPIWriter.cpp"), ("interior copy", "alsfvm/src/volume/Volume.cpp copyInternalCells")], ["files read back with the format's own library"])
p("C18", "An output failure is never silent",
  "If any file operation of a writer fails (create, define, write, close, out of space, missing directory), the run reports an error (an exception, and a failing exit status of the program) instead of finishing successfully with missing or partial output, and instead of being ended without a message; and after a failure that is survived, every file reported as complete is complete.",
  ["fault_sequences"], "every single library or system call made while writing, failed one at a time, for every writer and snapshot number",
  "Tests never make an output call fail.",
  ["alsfvm/include/alsfvm/io/hdf5_utils.hpp", "alsfvm/include/alsfvm/io/netcdf_utils.hpp", "alsfvm/include/alsfvm/io/parallel_netcdf_utils.hpp", "alsfvm/include/alsfvm/io/hdf5_utils.hpp", "alsfvm/src/io"],
  [("checked library calls", "alsfvm/include/alsfvm/io/*_utils.hpp")], ["exceptions and files after an injected fault"])
p("C19", "Every ensemble sample is computed exactly once, whatever the process layout",
  "For every number of samples and every split of processes into sample-parallel and space-parallel groups that is accepted, each sample number is computed exactly once by exactly one group; an impossible split is refused, on all processes alike, rather than losing or repeating samples. The ensemble run terminates on every schedule.",
  ["configurations", "schedules"], "all sample counts up to the bound times all process grids up to the bound, all schedules within the deviation bound",
  "Tests run one layout.",
  ["alsuq/src/mpi/SimpleLoadBalancer.cpp", "alsuq/include/alsuq/mpi/utils.hpp", "alsuq/src/run/Runner.cpp", "alsuq/src/config/Setup.cpp"],
  [("sample partition and communicator splits", "alsuq/src/mpi/SimpleLoadBalancer.cpp")], ["sample numbers run per process"])
p("C20", "A sample's parameters and solution do not depend on the process layout",
  "For a fixed generator, seed and number of samples, sample number k gets the same parameter values whatever the number of processes, the split and the order in which samples are run; different samples get the values the generator's sequence prescribes. Hence the set of sample solutions is a function of the configuration alone.",
  ["configurations", "histories"], "every generator and distribution, all sample counts and partitions up to the bound, every order of running samples",
  "Tests draw samples once, in order, on one process.",
  ["alsuq/src/generator", "alsuq/src/samples/SampleGenerator.cpp", "alsuq/src/distribution", "addons/qmc"],
  [("generators indexed by sample", "alsuq/src/generator/STLMersenne.cpp"), ("parameter lookup", "alsuq/src/samples/SampleGenerator.cpp")], ["parameters passed to the simulator"])
p("C21", "Ensemble mean and variance are those of the samples",
  "The statistics written for a time equal, up to rounding, the mean, variance and other point-wise statistics computed directly from the individual sample solutions at that time, independent of how samples and parts of the domain are distributed over processes, their order and the message schedule. Statistics of different times, variables and spatial parts are never mixed.",
  ["schedules", "configurations", "inputs"], "all sample counts and distributions up to the bound, several output times, values over a small alphabet, schedules within the bound",
  "Tests compute statistics of one ensemble on one process.",
  ["alsuq/src/stats/MeanVariance.cpp", "alsuq/src/stats/StatisticsHelper.cpp", "alsuq/src/stats/FixedIntervalStatistics.cpp", "alsuq/src/stats/TimeIntegratedWriter.cpp", "alsuq/src/run/Runner.cpp"],
  [("accumulation, reduction, finalisation", "alsuq/src/stats")], ["statistics handed to writers"])
p("C22", "Structure function, variation and moment statistics match their definitions",
  "Structure functions (along a direction, cube and two-point), total-variation and point-wise moment statistics equal the value of their defining formula evaluated on the sample solutions on the interior cells, averaged over the samples, for every exponent, offset, dimension and variable. What cannot be computed (structure functions across process borders, directions the data does not have) is refused.",
  ["inputs", "configurations"], "small volumes of every dimension with all-different sizes, values over a small alphabet, every statistic and parameter in the set",
  "Tests check at most that the statistic runs on constant data.",
  ["alsuq/src/stats/StructureBasic.cpp", "alsuq/src/stats/StructureCube.cpp", "alsuq/src/stats/StructureTwoPoints.cpp", "alsuq/src/stats/BoundedVariation.cpp", "alsuq/src/stats/BoundedVariationDirection.cpp", "alsfvm/include/alsfvm/functional/structure_common.hpp"],
  [("index loops of each statistic", "alsuq/src/stats")], ["statistic snapshots"])
p("C23", "Functionals report the integral they are defined as",
  "Functionals of the solution (Legendre moments, total variation, structure functions, logarithmic entropy, point-wise moments, identity) equal their defining integral or sum over the interior cells for every state, dimension, ghost width and weight, and are written at the requested times. In a decomposed run each process reports the functional of its own part of the domain, at its own place in the output. What is not defined (Legendre moments outside two dimensions, variation in three, structure functions of a part) is refused.",
  ["inputs", "configurations"], "small volumes of every dimension with all-different sizes and non-unit domains, values over a small alphabet, every functional and parameter in the set",
  "The tests check constants on unit squares.",
  ["alsfvm/src/functional/LegendrePointWise.cpp", "alsfvm/src/functional/Legendre.cpp", "alsfvm/src/functional/BoundedVariation.cpp", "alsfvm/src/functional/StructureBase.cpp", "alsfvm/src/functional/StructureCube.cpp", "alsfvm/src/functional/Moment.cpp", "alsfvm/src/functional/Identity.cpp"],
  [("cell loops with ghost offsets", "alsfvm/src/functional")], ["functional volumes"])
p("C24", "A configuration is honoured exactly or rejected",
  "Every option in a configuration file (equation, its parameters, flux, reconstruction, integrator, boundary, cfl, grid, end time, diffusion, writers, functionals, statistics) takes effect as documented, with the documented defaults, in every combination; an unknown or unsupported value, name or combination is rejected with an error before any time step, never ignored or replaced. A valid configuration runs whether or not message passing is used.",
  ["configurations"], "the product of all option values of each kind (pairwise-complete over kinds, full over valid equation-flux-reconstruction triples) and one-mistake mutations of valid files",
  "Tests parse a few example files.",
  ["alsfvm/src/config/SimulatorSetup.cpp", "alsfvm/src/config/XMLParser.cpp", "alsuq/src/config/Setup.cpp", "alsfvm/src/numflux/NumericalFluxFactory.cpp", "alsfvm/src/reconstruction/ReconstructionFactory.cpp", "alsfvm/src/integrator/IntegratorFactory.cpp"],
  [("parsing and factories", "alsfvm/src/config")], ["the simulator built", "exceptions"])
p("C25", "Each Runge-Kutta integrator performs exactly its scheme",
  "One step of each integrator equals the textbook stages applied to the right-hand side (forward Euler, the strong-stability-preserving Runge-Kutta schemes of orders two and three, and the classical Runge-Kutta scheme of order four) with boundary conditions current at every stage, for every right-hand side and step size; results never depend on earlier steps or on leftover buffer contents, and the step computed at the first stage is used throughout the step.",
  ["inputs", "histories", "programs"], "right-hand sides enumerated over a small family (constant, linear, polynomial, cell-coupled), all step sizes in a set, sequences of steps up to the bound, buffers pre-filled with garbage",
  "Tests check the convergence order for one problem, within wide tolerances.",
  ["alsfvm/src/integrator/ForwardEuler.cpp", "alsfvm/src/integrator/RungeKutta2.cpp", "alsfvm/src/integrator/RungeKutta3.cpp", "alsfvm/src/integrator/RungeKutta4.cpp", "alsfvm/src/simulator/Simulator.cpp"],
  [("stage combinations", "alsfvm/src/integrator/RungeKutta*.cpp")], ["output volumes of each stage"])
p("C26", "Results do not depend on the number of threads or loop scheduling",
  "Solution, functionals and statistics are the same (up to rounding of sums) for every number of worker threads and every assignment and order of loop iterations to threads; parallel loops never have two iterations touching the same memory with one of them writing without synchronisation.",
  ["schedules", "configurations"], "every parallel loop executed by the configurations, thread counts 1-4 and all permutations of chunks up to the bound, conflict check of access sets between chunks",
  "Tests use one thread count; a wrongly shared variable shows rarely.",
  ["alsfvm/src/numflux/NumericalFluxCPU.cpp", "alsfvm/src/reconstruction", "alsfvm/include/alsfvm/volume/volume_foreach.hpp", "alsfvm/src/equation/CPUCellComputer.cpp"],
  [("OpenMP parallel loops", "every #pragma omp in alsfvm and alsuq")], ["memory access sets of chunks", "results"])
p("C27", "Entropy-conservative fluxes and equation algebra hold for all states",
  "Entropy-conservative fluxes satisfy the entropy-conservation jump identity for every pair of admissible states, entropy-stable ones dissipate, and with entropy-stable diffusion the total entropy of periodic runs does not grow beyond the time-integration error. Converting between conserved, primitive and entropy variables is exactly invertible, entropy variables are the entropy gradient, and eigenvalues and entropy-scaled eigenvectors diagonalise the flux Jacobian.",
  ["inputs", "configurations"], "all pairs of states from a grid of admissible states, all directions, dimensions 1-3, every such flux and diffusion operator",
  "Tests evaluate a few pairs of states, one dimension.",
  ["alsfvm/include/alsfvm/equation/euler/Euler.hpp", "alsfvm/include/alsfvm/numflux/euler/Tecno1.hpp", "alsfvm/include/alsfvm/numflux/tecno_utils.hpp", "alsfvm/include/alsfvm/numflux/euler/Tecno1.hpp", "alsfvm/include/alsfvm/diffusion"],
  [("logarithmic means, entropy variables", "alsfvm/include/alsfvm/numflux/euler/Tecno1.hpp")], ["flux values and equation functions"])
p("C28", "Initial data: every cell starts with what the user's script gives for it",
  "Before the first step every interior cell of every variable holds exactly the conversion to conserved variables of the values the configured Python script gives for that cell's midpoint, for its place (i, j, k) in the whole grid and for the parameters in force, whichever process owns the cell, however the domain is split and however wide the ghost layer is, for cell-wise scripts and for whole-array functions (init_global). Parameters may have any name and length, setting parameters again (as for the samples of an ensemble) replaces exactly those given, values a script leaves unset are zero, and nothing leaks from one script, run or sample into the next. A script that is missing, wrong or fails in any cell and a parameter list that contradicts itself end in a reported error.",
  ["inputs", "configurations", "histories"], "every script of a family of cell-wise and whole-array scripts, domain shapes and splittings, ghost widths, every sequence of set-parameters and set-initial-data operations up to the bound, wrong scripts before and after good ones",
  "Tests run a few scripts on one process on square grids.",
  ["alsfvm/src/init/PythonInitialData.cpp", "alsfvm/include/alsfvm/volume/volume_foreach.hpp", "alsfvm/src/config/SimulatorSetup.cpp", "alsfvm/src/simulator/Simulator.cpp"],
  [("running the script and storing its values", "alsfvm/src/init/PythonInitialData.cpp"), ("reading the parameters", "alsfvm/src/config/SimulatorSetup.cpp")], ["first snapshot of every process", "exceptions"])
p("C29", "Plug-ins are called exactly as documented",
  "A user's shared library or Python class sees exactly the documented calls, in the documented order and with the documented arguments. Library writers: make the parameters, one set_parameter per configured key with its value (plus mpi_rank and mpi_size, in ensembles also group_names and group_index), create, the communicator, then per snapshot new_timestep, one write per variable with time, name, all cells including ghost cells, sizes, corners and device -1 on the CPU, end_timestep; and at the end delete and delete_parameters once each; functions set to NONE are skipped. Python writers: constructor with the parameters, write(data, grid, time, steps), synchronisation of the processes, afterMPISync, and finalize at the end. Library distributions: parameters including mpi_node and mpi_size, create(size, dimension), the generator with exactly the component and sample asked for, no generator call on any process before create has run on all of them, and deletion of the data before the parameters. Plug-ins never see each other's structs or calls. Missing libraries, functions and classes and Python errors in any call are reported as errors.",
  ["histories", "configurations", "schedules"], "every subset of the optional functions, every sequence of operations on two plug-ins up to the bound, all factories, serial and decomposed runs and ensembles, every schedule of the processes up to the bound, failures at every call",
  "Tests do not load any shared library, and no Python writer is ever called twice.",
  ["alsfvm/src/io/DLLWriter.cpp", "alsfvm/include/alsfvm/io/DLLWriter.hpp", "alsfvm/src/io/PythonScript.cpp", "alsfvm/src/io/MpiWriterFactory.cpp", "alsuq/src/io/MPIWriterFactory.cpp", "alsuq/src/distribution/DLLDistribution.cpp", "alsuq/include/alsuq/distribution/DLLDistribution.hpp", "alsuq/src/samples/SampleGenerator.cpp"],
  [("calls into the library", "alsfvm/src/io/DLLWriter.cpp"), ("calls into the class", "alsfvm/src/io/PythonScript.cpp"), ("calls into the library", "alsuq/src/distribution/DLLDistribution.cpp")], ["recorded calls with their arguments"])
p("C30", "The programs do exactly the configured run and their exit status says so",
  "alsvinncli and alsuqcli, started on any number of processes with any division (--multi-x/y/z, --multi-sample, --automatic-x/y/z), either refuse it or perform exactly the run the file describes: all files, with the values of the run on one process, are written and closed, the run report (JSON and XML) names the program, the run, the number of time steps and the command line, every process finalizes MPI and the exit status is success. Divisions whose product is not the number of processes, that are not positive or do not divide the grid or the samples are refused. Wrong command lines explain the usage; --help prints it and runs nothing. Wrong files and runs that break down on any process or in any sample end with a nonzero exit status, a message and no run report. Scripts and load: entries are found relative to the XML file, wherever the program is started.",
  ["inputs", "configurations", "schedules"], "every division up to the bound with every number of processes, all listed kinds of wrong command lines and files, a breakdown at every process and every sample",
  "Tests never run the programs' main functions.",
  ["alsvinncli/src/main.cpp", "alsuqcli/src/main.cpp", "alsutils/src/write_run_report.cpp", "alsfvm/src/config/SimulatorSetup.cpp", "alsuq/src/run/Runner.cpp"],
  [("main", "alsvinncli/src/main.cpp"), ("main", "alsuqcli/src/main.cpp"), ("writeRunReport", "alsutils/src/write_run_report.cpp")], ["exit status, printed text, files and run reports of the programs"])
p("C31", "The Python front end asks for the run it is told and reads back what it wrote",
  "For every combination of arguments of alsvinn.run() and every sequence of settings operations on an Alsvinn object (started empty, from a configuration or from an XML file, with remarks and any white space): the right program (alsvinncli, or alsuqcli for ensembles; through mpirun with the product of the divisions as number of processes when there are several; with the given prefix and number of threads) is started exactly once, and the XML file it is given states exactly the settings asked for, those not mentioned as in the base file or as in a run without arguments, in the form the configuration reader expects, with the initial data script of the right content next to it. Base files and scripts are not changed and no temporary files stay. A program that fails or is killed raises an exception, whatever it prints. get_data, get_time, get_line_segment, get_2d_grid and plot give the values, times and cell midpoints of every snapshot, single sample and statistic as written (arrays indexed as in the files), and refuse what does not exist.",
  ["inputs", "histories"], "all pairs of argument values, all base files of a family, all sequences of operations up to the bound, all shapes and snapshots",
  "Tests call run() once with two arguments and read one snapshot.",
  ["python/alsvinn/alsvinn.py", "alsfvm/src/config/SimulatorSetup.cpp", "alsuq/src/config/Setup.cpp", "alsfvm/src/io/NetCDFWriter.cpp"],
  [("run", "python/alsvinn/alsvinn.py"), ("Alsvinn.run", "python/alsvinn/alsvinn.py"), ("Alsvinn.get_data", "python/alsvinn/alsvinn.py"), ("Alsvinn.read_xml", "python/alsvinn/alsvinn.py")], ["command lines, XML and script files as seen by the programs, arrays and plots returned"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for d in P:
            assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
            f.write(json.dumps(d) + "\n")
    for d in P:
        for x in d["anchors"]["files"]:
            if not os.path.exists("/repo/" + x): print(d["id"], "missing", x)
