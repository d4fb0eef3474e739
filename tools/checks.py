CHECKS = {
 "C01": dict(technique="stateless exploration of the real code under a controlled scheduler and message runtime (bounded departures), compared with the single-process run",level="model_checking", programs=[dict(name="h_parallel", budget=dict(quick=300, thorough=7200))],
   bounds="every equation, flux, reconstruction, integrator, diffusion operator and boundary in 1-3 dimensions on 2-8 processes with 2-6 cells per process and direction, 1-3 steps; all policies with 0 departures, 1-2 (thorough 2-3) departures for small shapes",
   assumptions=["message passing follows the stand-in runtime's semantics", "scheduling points are synchronisation and message operations; unsynchronised accesses are the subject of C16"]),
 "C02": dict(technique="stateless exploration of the real halo exchange under a controlled scheduler and message runtime (bounded departures)",level="model_checking", programs=[dict(name="h_halo", budget=dict(quick=300, thorough=7200))],
   bounds="1-3 dimensions, every process grid of at most 8 (thorough 12) processes, ghost width 1-4, 1/3/4/5 variables, periodic and Neumann, two rounds; all policies with 0 departures, 1-2 departures for small shapes",
   assumptions=["message passing follows the stand-in runtime's semantics (MPI standard ordering, any legal delivery time)", "local grids are at least as wide as the ghost layer"]),
 "C03": dict(technique="explicit-state enumeration of all decompositions computed by the real code against an independent model",level="exploration", programs=[dict(name="h_decomp")], rule="every global size times every process grid times three boundary combinations, each decomposed on every rank; non-trivial: more than one process",
   bounds="process grids of at most 6 (thorough 8) processes, sizes up to 6 (9) cells per direction (12/18 in 1D), 1-3 dimensions", assumptions=[]),
 "C08": dict(technique="exhaustive enumeration of all pairs of states over a grid, each evaluated by the real flux operators against independent flux formulas",level="exploration", programs=[dict(name="h_flux")],
   rule="every ordered pair of admissible states of a grid (equal, almost equal, transonic, supersonic, shear, stationary) per equation, flux, direction and dimension, evaluated by the operator the factory builds; non-trivial: the two states differ",
   bounds="all equations, all fluxes the factory offers, 1-3 dimensions, all directions; states from the listed grid", assumptions=["rounding tolerance 1e-11 relative to the flux scale"]),
 "C27": dict(technique="exhaustive enumeration of all pairs of states over a grid, checked against the entropy-conservation identity and Jacobian eigenstructure on the real code",level="exploration", programs=[dict(name="h_entropy")],
   rule="every ordered pair of admissible states of a grid per equation, entropy-conservative flux, direction and dimension, every state for the algebraic identities; non-trivial: the two states differ",
   bounds="Euler 1-3D and scalar equations, all entropy-conservative fluxes, diffusion operators on all words of small length", assumptions=["amplitude of the diffusion is not claimed, only its sign"]),
 "C25": dict(technique="exhaustive enumeration of right-hand sides, step words, buffers and configurations, the real integrators and simulators compared step by step with the textbook Butcher tableaux",level="exploration", programs=[dict(name="h_rk")],
   rule="(A) every integrator times six right-hand sides times every word of four values times cfl and clipping, three consecutive steps; (B) every configuration of the matrix times grid sizes around the ghost width, each step of the real simulator compared with the reference stages; non-trivial: every step",
   bounds="1-3 dimensions, 3-12 steps, grid sizes from the ghost width to three times it", assumptions=["reference right-hand sides in (B) use the flux operator on the whole grid at once"]),
 "C10": dict(technique="exhaustive enumeration of all words of cell values over an alphabet, each reconstructed by the real code and compared with an independent statement of the scheme",level="exploration", programs=[dict(name="h_recon")],
   rule="every word over the alphabet as long as the stencil (plus neighbours), every reconstruction the factory builds, every direction and position; non-trivial: words that are not constant",
   bounds="1-3 dimensions, alphabet of 3-5 letters, stencils of up to 7 cells", assumptions=["ties between candidate stencils may be broken either way"]),
 "C12": dict(technique="exhaustive enumeration of grid sizes, ghost widths and boundary combinations, the real boundary operator compared with an index model",level="exploration", programs=[dict(name="h_bc")],
   rule="every grid size up to the bound times ghost width times every assignment of periodic, Neumann and neighbour sides; every cell of the volume has a unique value; non-trivial: at least one physical side",
   bounds="1-3 dimensions, ghost width 1-4, sizes up to 6 cells per direction", assumptions=[]),
 "C07": dict(technique="exhaustive enumeration of initial words, every step of the real simulator checked for conservation and fixed points",level="exploration", programs=[dict(name="h_conserve")],
   rule="every word over the alphabet on a small periodic grid and every constant state, for every configuration of the matrix, several steps each; non-trivial: the word is not constant",
   bounds="1-3 dimensions, every equation, flux, reconstruction, diffusion operator and integrator of the matrix", assumptions=["states where nothing moves (zero wave speed everywhere) have no time step and are left out"]),
 "C05": dict(technique="exhaustive enumeration of initial words, every step proposed by the real simulator compared with bounds from independently computed wave speeds; whole runs to the end time",level="exploration", programs=[dict(name="h_cfl")],
   rule="every word over the alphabet (all words of short grids; for longer ones all words with at most K cells different from a constant background), every configuration of the matrix, up to three steps each; non-trivial: all words in which some wave moves",
   bounds="1-3 dimensions, grids of 5-12 cells, 3-4 letters, four end times and three cfl numbers for whole runs", assumptions=["edge values outside the admissible states (overshooting reconstructions) have no bound"]),
 "C09": dict(technique="exhaustive enumeration of initial words and of ordered pairs of words, every step of the real simulator checked for range, variation, order and positivity",level="exploration", programs=[dict(name="h_monotone")],
   rule="every word over the alphabet (all words of short grids; for longer ones all words with at most K cells different from a constant background), every monotone scheme, several steps; every pair of words differing by one raised cell for order preservation; non-trivial: words that are not constant, and every pair",
   bounds="1-3 dimensions, grids of 5-12 cells, 3-4 scalar letters, 27 Euler letters", assumptions=["Roe's flux is excluded from order preservation and sonic points; the three-wave HLL flux is held to positivity for strong jumps in one dimension only"]),
 "C11": dict(technique="exhaustive enumeration of initial words, the real simulator run on each problem and on its transposed, mirrored, shifted and higher-dimensional images, compared step by step",level="exploration", programs=[dict(name="h_direction")],
   rule="every word over the alphabet (all words of short grids; for longer ones all words with at most K cells different from a constant background) times axis permutations, mirrors, shifts and liftings times the configuration matrix; non-trivial: all words in which some wave moves",
   bounds="1-3 dimensions, grids of 5-27 cells, 3 letters with generic offsets, 2-3 steps", assumptions=["tied stencils of ENO schemes are avoided by generic offsets"]),
 "C14": dict(technique="explicit-state search over sequences of operations on the real volumes in lockstep with a plain-array model, plus enumeration of every read, iteration and refusal over shapes",level="model_checking", programs=[dict(name="h_volume", budget=dict(quick=200, thorough=3000))],
   bounds="all shapes up to 4x3x2 cells with ghost width 0-3: all sequences of 2 (thorough 3) of 38 operations on three volumes, their memory areas and a component view, 3 (4) on five small shapes; queries on all shapes up to 4x4x3, interpolation and copies between all ghost widths 0-3, operands of up to eight wrong shapes",
   assumptions=["memory-level operations identify operands by their number of elements", "total variation over all directions is defined in one and two dimensions only (the code refuses three)"]),
 "C13": dict(technique="exhaustive injection of invalid states (every cell, variable, value and step) and enumeration of forced steps from all initial words, real simulators monitored at writer level; decomposed runs explored under the controlled scheduler",level="model_checking", programs=[dict(name="h_constraint", budget=dict(quick=300, thorough=3600))],
   bounds="constraint check: shapes up to 37 / 9x5 / 3x2x4 cells, ghost width 1-3, every position, every invalid kind, pairs of invalid cells, every invalid ghost cell; forced steps: 6 / 4x4 / 4x4x4 cells, words over 3 letters, 7 step sizes, all integrators; decomposed: 2-4 processes, every position, steps 1 and 2, 0-1 departures",
   assumptions=["steps whose reference result is within rounding of the admissible boundary, or whose stages leave it, are skipped and counted"]),
 "C04": dict(technique="exhaustive enumeration of the step sizes the solver may propose (all cyclic words over an alphabet relative to the next save), the real simulator and writers run to the end and the saves compared with the requested times",level="model_checking", programs=[dict(name="h_saves", budget=dict(quick=200, thorough=3000))],
   bounds="all words of length 3 (thorough 5) over eight kinds of steps (hitting, just before, past, a fraction of the next save, far too large) for 20 combinations of writers and functionals with different save counts; save counts 1-160 with 16 (thorough 75) end times for rounding",
   assumptions=["steps shorter than 1e-4 of the end time are not proposed"]),
 "C06": dict(technique="exhaustive enumeration of the step sizes the solver may propose (all cyclic words over an alphabet relative to the windows), real windowed writers and functionals compared with sums over the recorded steps",level="model_checking", programs=[dict(name="h_windows", budget=dict(quick=200, thorough=3000))],
   bounds="all words of length 2-3 (thorough 4-5) over eight kinds of steps; seven window times (at the start, between, past the end), four radii, five snapshot counts, pairs of windows; coarse saves for three end times, 1-5 saves, 0-3 coarse saves, 0-2 skips, four step sizes",
   assumptions=["a run that ends within rounding of a snapshot time may or may not count it"]),
 "C23": dict(technique="explicit-state enumeration of all states over an alphabet, every functional of the real code compared with its definition; decomposed runs compared part by part",level="model_checking", programs=[dict(name="h_functional", budget=dict(quick=200, thorough=3000))],
   bounds="all words over 3 cell states on shapes up to 6 (thorough 8) cells in 1-3 dimensions, ghost width 0-3, three geometries, every functional with exponents, degrees, offsets and variables; nine whole runs on 1-4 processes",
   assumptions=["values up to rounding (1e-12 of the scale)"]),
 "C19": dict(technique="stateless exploration of real ensemble runs under a controlled scheduler and message runtime, over every process layout",level="model_checking", programs=[dict(name="h_ensemble19", budget=dict(quick=250, thorough=3600))],
   bounds="every layout (including zero and negative counts) of 1-4 (thorough 6) processes and 1-6 (8) samples; all schedules with one departure for up to 3 (thorough 4, two departures for 2 processes) processes, all policies for the valid layouts",
   assumptions=["message passing follows the stand-in runtime's semantics", "initial data are computed by the harness instead of the Python interpreter"]),
 "C20": dict(technique="stateless exploration of real ensemble runs under a controlled scheduler and message runtime, over process layouts; parameters and solutions of each sample compared with its number's",level="model_checking", programs=[dict(name="h_ensemble20", budget=dict(quick=250, thorough=3600))],
   bounds="layouts of 1-4 (thorough 6) processes with 2-6 samples, sample start 0 and 3, uniform and uniform1d distributions, burgers 1D and 3D, Euler 1D and 2D; all policies, one departure for up to 3 processes and tiny runs",
   assumptions=["message passing follows the stand-in runtime's semantics", "the sequence is that of the default-seeded 64-bit Mersenne twister, in order of samples, names and components", "quasi-random generators are not part of this build"]),
 "C21": dict(technique="stateless exploration of real ensemble runs under a controlled scheduler and message runtime, over process layouts; every statistic file compared with the statistics of samples run alone",level="model_checking", programs=[dict(name="h_ensemble21", budget=dict(quick=250, thorough=3600))],
   bounds="layouts of 1-4 (thorough 6) processes with 2-6 samples; mean, variance, third moment, identity and moment functionals, time-integrated functionals, several save counts in one run, burgers 1D and 3D, Euler 1D and 2D; all policies, one departure for up to 3 processes and tiny runs",
   assumptions=["message passing follows the stand-in runtime's semantics", "initial data are computed by the harness instead of the Python interpreter"]),
 "C22": dict(technique="explicit-state enumeration of ensembles over an alphabet of cell states, every statistic of the real code fed and written, compared with its definition; every distribution of the samples over processes under the controlled message runtime",level="model_checking", programs=[dict(name="h_stats", budget=dict(quick=200, thorough=3000))],
   bounds="all words over 3 cell states (up to 250, thorough 2500, words per shape; larger shapes: words with few cells off a constant background) on shapes up to 5x4x3 cells in 1-3 dimensions, ghost width 0-3, 2-3 samples, 2-3 times, every statistic with exponents, offsets and directions; all assignments of 2-4 (thorough 5) samples to 2-3 processes; fifteen refusals",
   assumptions=["values up to rounding (1e-11 of the scale)", "two-point structure functions extend the data constantly past the boundary whatever the boundary condition, as their code documents", "structure_surface is not implemented in the code and refused"]),
 "C15": dict(technique="stateless exploration of the real queue under a controlled scheduler (bounded departures, spurious wake-ups), with an access-level happens-before race detector",level="model_checking", programs=[dict(name="h_queue", budget=dict(quick=150, thorough=3000))],
   bounds="queue sizes 1-3, up to 5 (thorough 7) snapshots, 1-3 writers and 1-3 readers, 0-3 departures from every policy and up to two spurious wake-ups, handlers that fail at every call, tables of calls that must wait",
   assumptions=["scheduling points are mutex, condition variable and thread operations; that everything between them is ordered is what the race detector checks on every schedule"]),
 "C16": dict(technique="stateless exploration of real time steps and shared services under a controlled scheduler, every memory access of the compiled library checked with happens-before on every schedule",level="model_checking", programs=[dict(name="h_races", budget=dict(quick=150, thorough=3000))],
   bounds="time steps of every equation, flux, reconstruction, integrator and diffusion operator with the exchange thread on 1-2 processes in 1-3 dimensions; timers from 2-3 threads with up to 2-3 departures and exact totals; text file cache, HDF5 writers and logging from two threads",
   assumptions=["library calls into HDF5 are taken as accesses to one shared state (the library is not built thread safe)", "accesses inside third-party libraries and the C++ runtime are not watched"]),
 "C24": dict(technique="exhaustive enumeration of option values, combinations and single mistakes, each configuration built by the real set-up code (alone and on processes) and the objects and output it makes compared with what the options say",level="exploration", programs=[dict(name="h_config", budget=dict(quick=150, thorough=1800))],
   rule="every value of every option alone and in the combinations of the matrix, observed by the behaviour of what is built (fluxes, stencils, boundary cells, time steps, output times, parameters); every single mistake (missing, misspelt, repeated, wrong type, out of range) in valid files must be refused before the first step; non-trivial: configurations that differ from the defaults and all mistakes",
   bounds="all values the factories know, one mistake per file", assumptions=["unknown options inside nested blocks other than fvm and uq themselves are not refused by the code and not claimed"]),
 "C17": dict(technique="exhaustive enumeration of shapes, ghost widths, snapshot histories, cuttings of the domain over processes and sample groups and configured runs; every file written by the real writers read back, processes under the controlled message runtime",level="model_checking", programs=[dict(name="h_output", budget=dict(quick=200, thorough=3000))],
   bounds="all shapes up to 4x4x4 (thorough 5x5x5, plus longer ones), ghost width 0-3, 1-6 variables, 3 (thorough 12) snapshots from two interleaved writers; all uneven cuttings of nine grids over up to 8 (12) processes, with and without two sample groups, 0-2 departures from every schedule policy; runs of seven problems with five save options, functionals and up to 8 processes",
   assumptions=["HDF5 files store neither time nor attributes (the code writes none); their data are read in the order the file declares (compMinorF)", "the parallel netCDF library is replaced by an in-memory model that checks bounds, definitions and collective agreement", "HDF5MPIWriter is not built (no parallel HDF5 here)"]),
 "C18": dict(technique="exhaustive fault injection into the real writers, runs and command line programs: every single output operation fails once, at the level of the file library's calls, of its system calls (I/O error, full disk, short and interrupted writes) and of the parallel library's calls on every process",level="fault_enumeration", programs=[dict(name="h_faults", budget=dict(quick=200, thorough=3000))],
   rule="one execution per operation that can fail and kind of failure; non-trivial: the failure is felt, the run (or the write) reports it and what had been written before is intact (the other executions end with complete files)",
   bounds="one fault per execution (a full disk stays full): every call of writers with 3 (thorough 4) snapshots on three shapes, of runs with six kinds of output, of parallel and ensemble runs on 1-4 processes (on all at once or one), of the two command line programs; names that cannot be created",
   assumptions=["a crash inside the file library itself after one of its system calls failed (netCDF does when closing) is not counted against this code, and is not silent", "which process of a parallel run reports is left open when only one call on one process fails"]),
 "C26": dict(technique="every parallel loop of the OpenMP build run by explicit teams in every order of their members between barriers, every memory access of the compiled library checked with happens-before between members, results compared with those of one member",level="model_checking", programs=[dict(name="h_threads", budget=dict(quick=150, thorough=3000))],
   bounds="teams of 2 and 3 members in every order and of 4 in two (thorough: every order, and up to 8 members), several dealings of dynamic chunks; memory areas of 1-19 (40) elements in three shapes, volumes, time steps of every equation, flux, reconstruction, integrator and diffusion operator in 1-3 dimensions alone and on 1-2 processes with the exchange thread, every functional and statistic",
   assumptions=["the OpenMP run time is replaced: members run one after the other up to the next barrier; accesses of different members count as unordered unless a barrier, critical section or atomic operation orders them", "graphics-card code is not built"]),
 "C28": dict(technique="every script of a family x domain shape x splitting x ghost width, and every sequence of set-parameters / set-initial-data operations up to a bound, through the real configuration reader, compared cell by cell with the direct evaluation",level="model_checking", programs=[dict(name="h_init", budget=dict(quick=150, thorough=1800))],
   bounds="17 scripts (cell-wise and whole-array), 8 (thorough: 60+) domain shapes in 1-3 dimensions on 1-8 (12) processes, two placements, five equations, ghost widths 1-4, every sequence of up to 4 (5) operations over 2 scripts and 3 parameter sets, 12 wrong scripts in 3 positions, 11 parameter lists",
   assumptions=["the script language itself is the installed Python with numpy", "scripts run outside the controlled threads: processes evaluate their parts one after the other"]),
 "C29": dict(technique="every subset of optional plug-in functions and every sequence of operations on two plug-ins up to a bound, with a recording shared library and recording Python classes, compared call by call with the documented protocol; the process-wide ordering of create and generate over every schedule with one (two) departures",level="model_checking", programs=[dict(name="h_plugin", budget=dict(quick=150, thorough=1800))],
   bounds="128 subsets x 0-3 (5) snapshots x 5 grids x 3 factories; sequences of up to 4 (6) operations on two library writers and two Python writers; 8 runs on 1-4 processes with and without functionals; distributions: 8 subsets x 12 sizes x sequences of up to 3 (4) generator calls, 1-3 (4) processes; ensembles of 1-3 (4) samples",
   assumptions=["Python writers run outside the controlled threads, on one process", "writers of ensemble statistics are never finalized by the code; not covered", "graphics-card code is not built: gpu_number is always -1"]),
 "C30": dict(technique="the real main functions on the controlled message passing layer, one process image per execution: every division of the processes up to a bound, all kinds of wrong command lines and files and a breakdown at every process and sample, compared with the same run through the library",level="model_checking", programs=[dict(name="h_cli", budget=dict(quick=150, thorough=1800))],
   bounds="two programs; 1-4 (6) processes; sizes absent, 1, 2, 3, 0, -1, -2 (and 4) in each direction and for the samples, every automatic flag in both spellings; 20 wrong command lines and files on 1 and 2 processes; breakdowns of 2 kinds at every process and each of 4 samples under 2 (6) schedules",
   assumptions=["initial data come from a stand-in for the Python interpreter (C28 covers it)", "PnetCDF is the recording stand-in", "the programs are built without OpenMP; of divisions needing another number of processes a fifth is run"]),
 "C31": dict(technique="explicit-state enumeration: every pair (triple) of argument values, every base file of a family and every sequence of settings operations up to a bound on the real front end, in lockstep with a model of the settings, the programs replaced by recording stand-ins; every snapshot written by the real writer read back",level="model_checking", programs=[dict(name="h_python", budget=dict(quick=250, thorough=3000))],
   bounds="30 arguments with 1-3 values each: all pairs (triples), all at once and all but one; 765 base files in up to 5 places, alone and with single arguments and pairs; sequences of 2 (3) of 26 operations from 5 starting points and of 3 (4) of 18; 9 kinds of program ends; 9 (13) shapes, 3 placements, 1-12 snapshots, 4 (more) sets of samples, all pairs (triples) of 8 statistics",
   assumptions=["what the configuration reader makes of the XML file is C24's", "with a base file, initial data given without parameters may keep or drop the old ones", "files of single samples are laid out by the harness as C17 describes them"]),
}
