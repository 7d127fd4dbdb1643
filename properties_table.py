"""Which harness decides which property, and how it is described in the evidence."""
MPI_ASSUME = ["MPI is replaced by an in-process world of fibers: collectives synchronise, standard-mode sends complete when received, "
              "MPI_Test may report a completed operation late; ranks share no other state"]
HARNESSES = {
    "c01": {"srcs": ["c01.cc", "mpisim.cc"], "ldflags": ["-rdynamic"]},
    "c03": {"srcs": ["c03.cc", "e2e.cc", "exo.cc", "ref.cc", "mpisim.cc"], "ldflags": ["-rdynamic"]},
    "c05": {"srcs": ["c05.cc", "e2e.cc", "exo.cc", "ref.cc", "mpisim.cc"], "ldflags": ["-rdynamic"]},
    "c06": {"srcs": ["c06.cc"]},
    "c07": {"srcs": ["c07.cc", "e2e.cc", "exo.cc", "ref.cc", "mpisim.cc"], "ldflags": ["-rdynamic"]},
    "c08": {"srcs": ["c08.cc", "e2e.cc", "exo.cc", "ref.cc", "mpisim.cc"], "ldflags": ["-rdynamic"]},
    "c09": {"srcs": ["c09.cc", "e2e.cc", "exo.cc", "ref.cc", "mpisim.cc"], "ldflags": ["-rdynamic"]},
    "c10": {"srcs": ["c10.cc", "faults.cc", "e2e.cc", "exo.cc", "ref.cc", "mpisim.cc"], "ldflags": ["-rdynamic"]},
    "c11": {"srcs": ["c11.cc", "faults.cc", "e2e.cc", "exo.cc", "ref.cc", "mpisim.cc"], "ldflags": ["-rdynamic"]},
    "c21": {"srcs": ["c21.cc", "e2e.cc", "exo.cc", "ref.cc", "mpisim.cc"], "ldflags": ["-rdynamic"]},
    "c28": {"srcs": ["c28.cc", "e2e.cc", "exo.cc", "ref.cc", "mpisim.cc"], "ldflags": ["-rdynamic"]},
    "c04": {"srcs": ["c04.cc", "e2e.cc", "exo.cc", "ref.cc", "mpisim.cc"], "ldflags": ["-rdynamic"]},
    "c12": {"srcs": ["c12.cc", "e2e.cc", "exo.cc", "ref.cc", "mpisim.cc"], "ldflags": ["-rdynamic"]},
    "c25": {"srcs": ["c25.cc"], "ldflags": ["-rdynamic"]},
    "c15": {"srcs": ["c15.cc", "e2e.cc", "exo.cc", "ref.cc", "mpisim.cc"], "ldflags": ["-rdynamic"]},
    "c24": {"srcs": ["c24.cc", "e2e.cc", "exo.cc", "ref.cc", "mpisim.cc"], "ldflags": ["-rdynamic"]},
    "c22": {"srcs": ["c22.cc", "e2e.cc", "exo.cc", "ref.cc", "mpisim.cc"], "ldflags": ["-rdynamic"]},
    "c23": {"srcs": ["c23.cc", "e2e.cc", "exo.cc", "ref.cc", "mpisim.cc"], "ldflags": ["-rdynamic"]},
    "c16": {"srcs": ["c16.cc", "e2e.cc", "exo.cc", "ref.cc", "mpisim.cc"], "ldflags": ["-rdynamic"]},
    "c17": {"srcs": ["c17.cc", "e2e.cc", "exo.cc", "ref.cc", "mpisim.cc"], "ldflags": ["-rdynamic"]},
    "c18": {"srcs": ["c18.cc", "e2e.cc", "exo.cc", "ref.cc", "mpisim.cc"], "ldflags": ["-rdynamic"]},
    "c19": {"srcs": ["c19.cc", "e2e.cc", "exo.cc", "ref.cc", "mpisim.cc"], "ldflags": ["-rdynamic"]},
    "c26": {"srcs": ["c26.cc", "e2e.cc", "exo.cc", "ref.cc", "mpisim.cc"], "ldflags": ["-rdynamic"]},
    "c27": {"srcs": ["c27.cc", "e2e.cc", "exo.cc", "ref.cc", "mpisim.cc"], "ldflags": ["-rdynamic"]},
    "c29": {"srcs": ["c29.cc", "e2e.cc", "exo.cc", "ref.cc", "mpisim.cc"], "ldflags": ["-rdynamic"]},
    "c30": {"srcs": ["c30.cc", "e2e.cc", "exo.cc", "ref.cc", "mpisim.cc"], "ldflags": ["-rdynamic"], "uq": True, "defs": ["-DNIMBLE_HAVE_UQ"]},
    "c33": {"srcs": ["c33.cc", "e2e.cc", "exo.cc", "ref.cc", "mpisim.cc"], "ldflags": ["-rdynamic"]},
    "c31": {"srcs": ["c31.cc", "e2e.cc", "exo.cc", "ref.cc", "mpisim.cc"], "ldflags": ["-rdynamic"], "uq": True, "defs": ["-DNIMBLE_HAVE_UQ", "-D_GLIBCXX_SANITIZE_VECTOR=1"],
            "opt": ["-O1", "-g1", "-ftrivial-auto-var-init=pattern"],
            "sanitize": ["-fsanitize=address,bounds,signed-integer-overflow,shift,float-cast-overflow,integer-divide-by-zero,bool,enum,return,unreachable,vla-bound,pointer-overflow", "-fno-sanitize-recover=all"]},
}
# the same harnesses over other builds of the program: s without MPI and Trilinos, m with MPI but without Trilinos
for _h in ("c04", "c05", "c09", "c19", "c27", "c29"):
    HARNESSES[_h + "s"] = dict(HARNESSES[_h], nodefs=["-DNIMBLE_HAVE_MPI", "-DNIMBLE_HAVE_TRILINOS"])
HARNESSES["c03m"] = dict(HARNESSES["c03"], nodefs=["-DNIMBLE_HAVE_TRILINOS"])
PROPS = {
    "C01": {"harness": "c01", "level": "model_checking", "min_executions": 1000,
            "technique": "exhaustive enumeration of sharing patterns on the real communicator code over a simulated MPI world",
            "note": "all sharing patterns, orders and id maps up to the stated node and rank counts; trusts the MPI simulation",
            "rule": "every assignment of N global nodes to non-empty subsets of R ranks, times node-order and id-numbering variants; "
                    "a configuration is distinct by its sharing pattern, order and ids",
            "assumptions": MPI_ASSUME},
    "C02": {"harness": "c01", "level": "model_checking", "min_executions": 1000,
            "technique": "deviation-bounded exhaustive schedule exploration of the real communicator code over a simulated MPI world",
            "note": "all schedules up to the stated number of deviations for every sharing pattern of the stated shapes; trusts the MPI simulation",
            "rule": "every schedule (rank switch at each communication call, late MPI_Test answers) with at most d departures from the "
                    "default schedule, for every sharing pattern of each shape",
            "assumptions": MPI_ASSUME},
    "C03": {"harness": "c03", "level": "model_checking", "min_executions": 300,
            "technique": "exhaustive enumeration of mesh decompositions and deviation-bounded schedules of the real application over a simulated MPI world",
            "note": "all assignments of elements to processes of the stated meshes; schedules up to the stated deviations; trusts the MPI simulation and the Exodus library",
            "rule": "every assignment of the elements of a mesh to R processes, in two local node orders; every schedule with at most d departures from the default one",
            "assumptions": MPI_ASSUME + ["results agree to 1e-9 of the field's scale (summation order differs)"]},
    "C04": {"harness": "c04", "level": "model_checking", "min_executions": 300,
            "technique": "exhaustive enumeration of small decks, every time plane of the real application compared with an independent reference model",
            "note": "all block, material, condition, step and frequency combinations of the stated alphabet; trusts the reference model and the Exodus library",
            "rule": "every assignment of elements to blocks and of materials to blocks of small grids, and every step count, output frequency and start time; "
                    "a case is distinct by its deck and mesh",
            "assumptions": ["serial execution space", "floating point agreement to 1e-9 of the field's scale"]},
    "C05": {"harness": "c05", "level": "model_checking", "min_executions": 1000,
            "technique": "exhaustive enumeration of condition sequences run through the real application against a last-condition-wins model",
            "note": "all sequences of the stated lengths over the stated alphabet; unconstrained components are followed in free flight (no stiffness)",
            "rule": "every sequence of up to three conditions over kinds, overlapping named and unnamed node sets, components, constants and expressions; a case is distinct by its text",
            "assumptions": ["explicit integration", "times from the results file's own stamps"]},
    "C06": {"harness": "c06", "level": "model_checking", "min_executions": 100000,
            "technique": "exhaustive enumeration of strings and expression trees up to a size, evaluated by the real parser and by an independent one",
            "note": "all strings up to the stated token counts and all trees up to the stated operator count; compared at three points",
            "rule": "every token string over five alphabets and every expression tree in four layouts; blocks of consecutive strings count as one distinct case",
            "assumptions": ["inside a condition '^' outside parentheses means exclusive or", "'%' is only claimed between parenthesised operands",
                            "a value whose evaluation is ill-conditioned at a point is not compared there"]},
    "C07": {"harness": "c07", "level": "model_checking", "min_executions": 50000,
            "technique": "exhaustive enumeration of line orders, layouts, subsets, repetitions and single-key mutations of decks, read by the real parser and by an independent reading",
            "note": "all decks of the stated line alphabet and bounds; numbers compared exactly",
            "rule": "every order, layout, filler position, subset, repetition, misspelling and value of the stated alphabets; blocks of consecutive decks count as one distinct case",
            "assumptions": ["a key written twice takes its last value; blanks inside values do not matter outside quotes"]},
    "C08": {"harness": "c08", "level": "model_checking", "min_executions": 10000,
            "technique": "exhaustive enumeration of mesh files over an alphabet of layouts, read by the real mesh class and compared with what was written",
            "note": "all block layouts, identifier maps, names and sets of the stated small meshes, in the Exodus and text forms; unsupported contents by whole runs; trusts the Exodus library",
            "rule": "every assignment of elements to blocks, ids, names, maps, node and side subsets and distributions of the stated meshes; a case is distinct by that choice",
            "assumptions": ["text meshes are well formed", "an unreadable mesh file is one the Exodus library cannot open"]},
    "C09": {"harness": "c09", "level": "model_checking", "min_executions": 5000,
            "technique": "exhaustive enumeration of output requests, step and frequency settings and mesh layouts, results files of the real application read back and compared with an independent reference",
            "note": "all lists of requested variables, step counts, frequencies and block layouts of the stated alphabets; the output class by itself with all variable sets per block; trusts the reference model and the Exodus library",
            "rule": "every list of up to two (some of three) variables, every step count and frequency, every block assignment; a case is distinct by that choice",
            "assumptions": ["a requested label the model does not have yields no column", "output frequency at least one"]},
    "C10": {"harness": "c10", "level": "fault_enumeration", "min_executions": 2000,
            "technique": "exhaustive enumeration of crash points: the real application is killed before and inside every file-changing operation of its run",
            "note": "every operation that changes a file, writes torn at the stated offsets, for the stated runs; a kill leaves what the operating system was given",
            "rule": "every create, write (several prefixes), truncate, rename, unlink and close on the mesh and results files of each run is the last thing the program does; "
                    "a case is distinct by run, operation and prefix",
            "assumptions": ["the program is killed, the machine keeps running (data given to the operating system stays)", "processes of one run are killed together"]},
    "C11": {"harness": "c11", "level": "fault_enumeration", "min_executions": 2000,
            "technique": "exhaustive enumeration of single faults: every Exodus call and every file operation of a run of the real application fails",
            "note": "every call and operation of the stated runs, once and permanently; failures the Exodus library reports to the program must stop it",
            "rule": "every Exodus call fails (with and without having done its work, once and for good) or warns; every file operation fails once and for good, reads also end early, writes also stop half way; "
                    "a case is distinct by run, operation and kind of failure",
            "assumptions": ["a single file operation whose failure the Exodus library does not report to its caller cannot be noticed by the program (counted in the evidence)"]},
    "C21": {"harness": "c21", "level": "model_checking", "min_executions": 100000,
            "technique": "exhaustive enumeration of process counts, process indices and file names, as function values and as the files of whole runs over a simulated MPI world",
            "note": "all process counts up to the bound with all their processes, an alphabet of names; whole runs on up to 12 processes",
            "rule": "every name, kind, process count and process index; every whole run of the stated list; a case is distinct by its name and kind",
            "assumptions": MPI_ASSUME},
    "C28": {"harness": "c28", "level": "model_checking", "min_executions": 50000,
            "technique": "exhaustive enumeration of command lines, read by the real option parser in five build configurations and by an independent reading",
            "note": "all command lines of up to the stated number of words; whole runs of the shorter ones",
            "rule": "every sequence of words up to the bound; blocks of consecutive lines count as one distinct case",
            "assumptions": ["options the program does not know are left to the libraries it passes its arguments to"]},
    "C12": {"harness": "c12", "level": "model_checking", "min_executions": 100000,
            "technique": "exhaustive enumeration of element shapes, deformations and node orders through both element interfaces and of whole runs with imposed uniform gradients, against closed formulas",
            "note": "all displacement gradients and node offsets of the stated lattices; runs over all block assignments and distributions of the stated grids",
            "rule": "every displacement gradient of a lattice on a list of shapes, every shape with up to three nodes moved by lattice offsets; a block of consecutive cases counts as one distinct case",
            "assumptions": ["double precision; agreement to a rounding tolerance scaled by the size and position of the element"]},
    "C13": {"harness": "c12", "level": "model_checking", "min_executions": 100000,
            "technique": "exhaustive enumeration of element shapes, densities and positions through both element interfaces and of whole runs over block assignments and distributions, against exact integrals",
            "note": "all node offsets of the stated lattice on up to three nodes; runs over all block assignments and distributions of the stated grids",
            "rule": "every shape with up to three nodes moved by lattice offsets; every block assignment and distribution of the stated grids; a block of consecutive shapes counts as one distinct case",
            "assumptions": ["double precision; agreement to a rounding tolerance scaled by the size and position of the element"]},
    "C14": {"harness": "c12", "level": "model_checking", "min_executions": 100000,
            "technique": "exhaustive enumeration of element shapes, stresses and motions through both element interfaces and of free bodies in whole runs, against balance laws and virtual work",
            "note": "all unit stresses on the stated shapes, general ones on all; free bodies over all block assignments and distributions of the stated grids",
            "rule": "every shape with up to three nodes moved by lattice offsets, every unit stress and modulus, every block assignment and distribution of the stated grids; a block of consecutive cases counts as one distinct case",
            "assumptions": ["double precision; agreement to a rounding tolerance scaled by the size and position of the element"]},
    "C25": {"harness": "c25", "level": "model_checking", "min_executions": 1000000,
            "technique": "exhaustive enumeration of tensors over small value lattices at several scales through the real kernels, against defining identities in extended precision",
            "note": "all 3x3 and symmetric tensors over the stated value sets, spectra with every nearness pattern, rotations about all lattice axes; magnitudes 1e-8 to 1e7",
            "rule": "every tensor of the stated lattices at every scale; blocks of consecutive tensors count as one distinct case",
            "assumptions": ["double precision; agreement to a rounding tolerance scaled by the operands and, for inverses and decompositions, the condition number"]},
    "C15": {"harness": "c15", "level": "model_checking", "min_executions": 1000000,
            "technique": "exhaustive enumeration of deformation gradients, superposed rotations and constants through every interface of every material, and of whole runs, against the closed laws",
            "note": "all displacement gradients over four (thorough five) values with positive determinant; stretches over seven values turned on both sides; runs over the block assignments and distributions of the stated grids",
            "rule": "every deformation gradient of the lattices for every set of constants; a block of consecutive ones counts as one distinct case, every run as one",
            "assumptions": ["double precision; agreement to a rounding tolerance scaled by the terms of the law"]},
    "C24": {"harness": "c24", "level": "model_checking", "min_executions": 500000,
            "technique": "exhaustive enumeration of material lines over a word alphabet through every reader of them, and of whole runs, against an independent reading",
            "note": "all lines of up to six (thorough seven) of nine words; complete lines in every order with 34 notations of each value, extra words at every place, every spacing of up to three blanks",
            "rule": "every line of the alphabet; a block of consecutive lines counts as one distinct case, every run as one",
            "assumptions": ["words are separated by blanks; a line that writes a parameter twice may be refused or take either value"]},
    "C22": {"harness": "c22", "level": "model_checking", "min_executions": 700000,
            "technique": "exhaustive enumeration of sparsity patterns, filling orders, reuse histories and small linear systems against exact arithmetic",
            "note": "all patterns of two, three and four rows listed row by row, up to 40 filling orders, all pairs of patterns of three rows in one container; all symmetric systems of three unknowns over four diagonal and five other values with 27 right-hand sides, two unknowns over values 1e-12 to 1e12 with every iteration limit, chains up to 130 (thorough 260) unknowns, solver histories of four (five); all direct systems of three over {-1,0,1} and of four over {0,1}",
            "rule": "every pattern, filling, pair of patterns and system of the lattices; a block of consecutive ones counts as one distinct case",
            "assumptions": ["patterns are listed row by row as the callers do; iterative solver: symmetric systems with positive diagonal; singular systems whose elimination is exact"]},
    "C23": {"harness": "c23", "level": "model_checking", "min_executions": 8000,
            "technique": "exhaustive enumeration of the ways to write a body (node, element and block orders, cuts into blocks, local node orders, identifiers, set orders, distributions); every run compared with the run of the body as it was",
            "note": "5040 (thorough all 40320) node orders of one element; transpositions, shifts, reversals and strides of the nodes of grids up to 2x2x2; all orders, cuts into blocks and two-material assignments of four elements; all pairs of the 24 local node orders of two elements; eight identifier maps on all distributions of four elements over up to three processes; orders of node sets and in them",
            "rule": "every way of writing a body is one case",
            "assumptions": ["agreement to a rounding tolerance of 1e-10 of the largest value of a quantity; three steps"]},
    "C16": {"harness": "c16", "level": "model_checking", "min_executions": 500000,
            "technique": "exhaustive enumeration of element shapes and positions, and of whole runs over block assignments, materials and distributions, against the definition",
            "note": "boxes of five edge lengths, all single and pair displacements of nodes over three values, six shears over five values, in up to 512 positions of all octants and three scales; runs over the block assignments and distributions of the stated grids, moved and scaled, with four ratios of the step to the stable one; a chain with its shortest element at every place, in every block and on every process",
            "rule": "every shape is counted as an execution per position; a block of consecutive shapes counts as one distinct case, every run as one",
            "assumptions": ["the number printed has six digits"]},
    "C17": {"harness": "c17", "level": "model_checking", "min_executions": 60000,
            "technique": "exhaustive enumeration of bodies (sub-assemblies of element grids with every block assignment) and whole runs, comparing the real contact surface with the skin by definition",
            "note": "all ways to leave the cells of grids of up to nine cells empty or give them one of up to three blocks; 2x2x3 with one block; 3x3x3 with up to three cells empty or filled; renumbered and reordered up to 14 ways on the small grids; all roles of the blocks (primary, secondary, both, neither, named twice); whole runs over the block assignments of small grids with every contact command of the table",
            "rule": "one execution is one body in one naming whose contact entities are compared; one distinct case is one body",
            "assumptions": ["identifiers of faces are compared with the split runs (C20), not with a formula of their own", "blocks of hexahedra"]},
    "C18": {"harness": "c18", "level": "model_checking", "min_executions": 2000000,
            "technique": "exhaustive enumeration of triangles on a lattice, feet, gaps, motions, scales and tolerances, against long double arithmetic",
            "note": "all triangles with one of three base corners and the other two on a 3x3x3 lattice; feet on a lattice inside, on and outside the triangle; gaps of both signs and zero up to past the size of the face; all cyclic orders and their reversals; motions and scales of the table; every tolerance of the table",
            "rule": "one execution is one call of a projection; one distinct case is one triangle with its motion and order",
            "assumptions": ["positions nearer than rounding error to a limit are not judged"]},
    "C19": {"harness": "c19", "level": "model_checking", "min_executions": 1000000,
            "technique": "exhaustive enumeration of single contacts, of all histories of evaluations of touching and separating bodies to a depth, and of whole runs over distributions, against forces by definition",
            "note": "256 warped quadrilaterals x 4 triangles x 15 feet x gaps, penalties, sharings and numberings; all histories of four (thorough: six) evaluations over seven placements of five pairs of bodies; whole runs of eight steps over four velocities, two penalties and all distributions on up to three (thorough: four) processes",
            "rule": "one execution is one enforcement, one evaluation or one run; one distinct case is one quadrilateral and triangle, one history or one run",
            "assumptions": ["the search is one of the checks' own, supplied through the application as users supply theirs: every node against every face of the process", "penetrations nearer than 1e-7 to a limit are not judged"]},
    "C20": {"harness": "c17", "level": "model_checking", "min_executions": 60000,
            "technique": "exhaustive enumeration of bodies and distributions over simulated processes, and of all message schedules to a preemption bound, comparing with the unsplit surface",
            "note": "all bodies of up to three blocks on grids of up to four cells on three processes, two blocks on four; all one-block bodies in 2x2x2 and all two-block assignments of it on two processes; 2x2x2 on three and 2x2x3 on two with up to one cell empty; bodies around reentrant edges; message schedules to two or three preemptions; whole runs over distributions",
            "rule": "one execution is one body on one distribution under one schedule; one distinct case is one body and distribution",
            "assumptions": ["MPI is the simulated one"]},
    "C26": {"harness": "c26", "level": "model_checking", "min_executions": 900,
            "technique": "exhaustive enumeration of histories of runs with history-dependent materials (every assignment of four of them to the blocks of small bodies), the material itself comparing what it is given with what it left",
            "note": "materials with 0, 1, 4 and 19 state variables in every assignment to the blocks of every block assignment of bodies of one to four cells, on one process and split; one to six steps, every output frequency up to two; thorough: three processes and four cells in a row",
            "rule": "one execution is one run; one distinct case is one body, assignment, distribution and number of steps",
            "assumptions": ["the materials are the checks' own, supplied through the application as users supply theirs", "MPI is the simulated one"]},
    "C27": {"harness": "c27", "level": "model_checking", "min_executions": 4500,
            "technique": "exhaustive enumeration of quasistatic decks (bodies, block assignments, materials, node orders and identifiers, conditions, load steps, tolerances, iteration limits, output frequencies); every plane the real program writes is checked for equilibrium against independently computed forces",
            "note": "bodies of one to four cells, fifteen sets of conditions from none over well held to crushed and turned inside out, two or four materials, six numberings, seven solver settings, four output frequencies; two and three processes (refused); thorough: all block assignments with all settings, bodies of eight cells",
            "rule": "one execution is one run; one distinct case is one body, numbering, assignment, set of conditions and solver setting",
            "assumptions": ["a tolerance relative to a starting force that is rounding error is allowed to be out of reach", "MPI is the simulated one"]},
    "C29": {"harness": "c29", "level": "model_checking", "min_executions": 5000,
            "technique": "exhaustive enumeration of contact runs (bodies, velocities, identifiers, output frequencies, distributions over processes); every contact file the real program writes is checked plane by plane against the skin, the results file and what the search reported",
            "note": "five pairs of bodies, four velocities, three numberings, three output frequencies, all distributions of their elements over two and three processes (thorough: four, longer runs); visualization on, off, not asked for, and without contact",
            "rule": "one execution is one run; a case is distinct by its bodies, motion, numbering, frequency, distribution and request",
            "assumptions": ["the contact search is the harness's own (the build has none) and says of every entity whether it is in contact", "MPI is the simulated one"]},
    "C30": {"harness": "c30", "level": "model_checking", "min_executions": 2000,
            "technique": "exhaustive enumeration of small uncertainty runs of the real application (built with the uncertainty option), every trajectory at every time plane compared with an independent reference of the ensemble",
            "note": "all combinations of the stated bodies, uncertain parameters, numbers of exact and approximate samples, conditions, steppings and distributions over processes; trusts the reference model and the Exodus library",
            "rule": "one execution is one run; a case is distinct by its body, materials, uncertain parameters, samples, conditions, stepping and distribution",
            "assumptions": ["floating point agreement to 1e-9 of the field's scale", "bulk and shear modulus are the uncertain parameters", "MPI is the simulated one"]},
    "C31": {"harness": "c31", "level": "model_checking", "min_executions": 40000,
            "technique": "exhaustive enumeration of inputs damaged in every single place, each run of the real application under address and undefined-behaviour monitors with patterned fresh memory; whole inputs compared with an independent reference",
            "note": "every single-place damage of the stated kinds to four decks, four meshes, two split meshes, a samples file and the command line, and all expressions of the stated length; the monitors see the program's own code, not the insides of the Exodus, MPI and Kokkos libraries",
            "rule": "one execution is one run, or one expression; a case is distinct by its input",
            "assumptions": ["fresh memory is filled with a pattern instead of every possible content", "single damages, not combinations", "MPI is the simulated one"]},
    "C32": {"parts": [("c03m", "C03"), ("c04s", "C04"), ("c05s", "C05"), ("c09s", "C09"), ("c19s", "C19"), ("c27s", "C27"), ("c29s", "C29")], "level": "model_checking", "min_executions": 30000,
            "technique": "the exhaustive enumerations of seven other properties repeated on the program built without MPI and Trilinos, and without Trilinos, against the same independent references",
            "note": "as C03 (build without Trilinos), C04, C05, C09, C19, C27 and C29 (build without both); builds without Kokkos or Exodus do not exist",
            "rule": "as in those properties; an execution is one case of theirs",
            "assumptions": MPI_ASSUME},
    "C33": {"harness": "c33", "level": "model_checking", "min_executions": 1000,
            "technique": "exhaustive enumeration of histories: a material of the harness records every evaluation of real quasistatic runs and compares what it is given with what it left, and the results file with its records",
            "note": "bodies of 1 to 4 elements, all assignments to 1 to 2 (3) blocks using every block, five materials with 0 to 4 state variables per block, 1 to 6 load steps, three kinds of loading, output every 0 to 3 steps, element numbers given or not",
            "rule": "an execution is one run of the real program with the recording material; states are the distinct states left at the elements; transitions the evaluations of the material",
            "assumptions": ["the material's law itself (elastic with a memory) is the harness's; one process, as the quasistatic solver is for one process"]},
}
