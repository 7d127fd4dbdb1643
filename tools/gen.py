#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and properties_table.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from properties_table import PROPS  # noqa: E402


def P(pid, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (pid, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    return {"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
            "why_tests_cant": why, "anchors": a}


NONE = "The unit tests never touch this code; the system tests (which need mpirun and exodiff and are not run here) compare a handful of decks with stored output."
PR = [
 P("C01", "Shared-node sums are exact for every way nodes are shared between processes",
   "When a nodal quantity is summed across processes, every process that holds a node ends up with the total of all holders' contributions to that node, for every set of processes that share each node, every local node order and every global numbering. Nodes held by one process keep their own value, and each process identifies exactly the nodes it shares and, for each, the lowest process that holds it.",
   ["configurations", "inputs"], "every assignment of nodes to non-empty subsets of processes, every local order and numbering, scalar and vector quantities, with and without Tpetra",
   "The unit tests never communicate; the parallel system tests use one or two decompositions of one mesh, so most sharing patterns (three and more holders, holders that share several node groups, empty processes) never occur.",
   ["src/nimble_vector_communicator.h", "src/nimble.mpi.rank_clique_reducer.h", "src/nimble.mpi.reduction.cc", "src/nimble.mpi.reduction_utils.cc", "src/nimble.mpi.reduction.h", "src/nimble_tpetra_utils.cc"],
   [("clique construction", "src/nimble.mpi.reduction.cc"), ("pack/reduce/unpack", "src/nimble.mpi.rank_clique_reducer.h"), ("initialisation and boundary node indices", "src/nimble_vector_communicator.h")]),
 P("C02", "Interprocess sums never stall and do not depend on message timing",
   "Whatever the relative speed of the processes and the completion order of their messages, setting up and performing any number of shared-node sums terminates on every process and gives the same values. Buffers are not read or overwritten while a transfer on them is pending.",
   ["schedules"], "every interleaving of process progress and message completion within a deviation bound",
   "An mpirun on one machine shows one timing per run; the order of communicator construction and asynchronous completions is never controlled.",
   ["src/nimble.mpi.reduction.cc", "src/nimble.mpi.rank_clique_reducer.h", "src/nimble.mpi.reduction_utils.cc", "src/nimble_vector_communicator.h"],
   [("communicator creation order", "src/nimble.mpi.reduction.cc"), ("asynchronous reduce and poll", "src/nimble.mpi.rank_clique_reducer.h")]),
 P("C03", "A run split over processes gives the same results as the unsplit run",
   "For every way of distributing the elements of a mesh over processes, and every timing of their messages, the run terminates on all processes and every process's results file holds, for each of its nodes and elements and every output time, the values the unsplit run gives. This covers boundary conditions, initial conditions, several blocks and processes that hold no element of a block.",
   ["configurations", "schedules"], "every assignment of elements to processes of small meshes, with decks that use several blocks, node sets and conditions; schedules within a deviation bound",
   "The stored system tests have one decomposition per problem and are not runnable here; the unit tests contain no multi-process run.",
   ["src/nimble.cc", "src/nimble_data_manager.cc", "src/nimble_kokkos_model_data.cc", "src/integrators/explicit_time_integrator.cc", "src/nimble_vector_communicator.h", "src/nimble_genesis_mesh.cc"],
   [("nodal force and mass reduction", "src/integrators/explicit_time_integrator.cc"), ("global reduction wiring", "src/nimble_data_manager.cc")],
   ["results files of all processes"]),
 P("C04", "Explicit runs follow the central-difference trajectory of the model",
   "For every deck an explicit transient run accepts, the displacements, velocities, accelerations, internal forces, stresses and deformation gradients it writes are those of the semidiscrete model: eight-node hexahedra with the material law of each block, lumped mass, prescribed conditions, advanced with velocity half steps on either side of a displacement update of one fixed step size. The number of steps, their size and the time stamps follow the deck.",
   ["inputs", "configurations"], "small meshes, all combinations of block materials, conditions, step counts and output frequencies of a small alphabet; every step compared",
   NONE,
   ["src/integrators/explicit_time_integrator.cc", "src/nimble_kokkos_model_data.cc", "src/nimble_kokkos_block.cc", "src/nimble_element.cc", "src/nimble_material.cc", "src/nimble_data_manager.cc"],
   [("time stepping", "src/integrators/explicit_time_integrator.cc"), ("internal force", "src/nimble_kokkos_model_data.cc"), ("material update", "src/nimble_material.cc")],
   ["results file"]),
 P("C05", "Constrained nodes take exactly the prescribed values, and no others do",
   "At every output time each node component that the deck constrains has the prescribed velocity, or after the start the prescribed displacement, given for that node set, component and time, conditions written later in the deck taking effect after earlier ones, and every initial velocity is the one given for its set. Conditions on a set never affect nodes or components outside it. A condition of unknown kind or component, or without a readable value, is refused.",
   ["inputs", "histories"], "all sequences of up to three conditions over overlapping node sets, components, constant and expression values, and step counts",
   NONE + " Each uses non-overlapping conditions.",
   ["src/nimble_boundary_condition.cc", "src/nimble_boundary_condition_manager.cc", "src/nimble_boundary_condition_manager.h", "src/nimble_model_data_base.cc", "src/nimble_kokkos_model_data.cc"],
   [("parse", "src/nimble_boundary_condition.cc"), ("apply", "src/nimble_boundary_condition_manager.cc")],
   ["results file"]),
 P("C06", "Expressions evaluate to the value the written formula has",
   "Every well-formed expression in a deck evaluates, at each position and time, to the value ordinary mathematical notation gives it (precedence, left associativity of minus and divide, parentheses, numbers in any notation, the documented functions and constants, conditionals). Blanks around operators, operands and parentheses do not matter, evaluating twice changes nothing, and an ill-formed expression is refused.",
   ["inputs", "programs"], "all expressions up to a size bound over the full operator, function, variable and literal alphabet, at several points",
   "No test evaluates an expression except through one or two boundary conditions.",
   ["src/nimble_expression_parser.cc", "src/nimble_expression_parser.h"],
   [("recursive descent", "src/nimble_expression_parser.cc"), ("evaluation tree", "src/nimble_expression_parser.h")]),
 P("C07", "An input deck means the same however it is laid out",
   "The settings a run uses are exactly those written in its deck: order of lines, indentation, blank and comment lines, trailing blanks and missing final newline do not change them, entries for different blocks, materials and conditions all take effect, a key written twice takes its last value, and everything not written has its default. A deck that lacks or misspells what a run needs, or has an entry the code does not know, stops with a message instead of running with something else.",
   ["inputs"], "all line permutations, insertions and layouts of decks built from every known key, and every single-key mutation",
   "No unit test reads a deck; the system tests use decks of one layout.",
   ["src/nimble_parser.cc", "src/nimble_parser.h", "src/nimble.cc"],
   [("line reader", "src/nimble_parser.cc"), ("key dispatch", "src/nimble_parser.cc")]),
 P("C08", "A mesh is read exactly as its file describes it",
   "Node count, coordinates, element blocks with their ids, names and connectivity, the ids, names and members of node sets and the ids, names and elements of side sets, and all global identifiers seen by the program are the ones in the mesh file, for every block layout, numbering, naming and set membership, including empty blocks and meshes split over files. A file that is missing or is not a mesh, and element types or identifier maps the program cannot use, are reported, not turned into a different mesh.",
   ["inputs"], "all small meshes over an alphabet of block layouts, id maps, names, node and side sets and missing pieces",
   NONE,
   ["src/nimble_genesis_mesh.cc", "src/nimble_genesis_mesh.h"],
   [("Exodus reading", "src/nimble_genesis_mesh.cc"), ("text reading", "src/nimble_genesis_mesh.cc")]),
 P("C09", "The results file holds what was asked for, at the steps asked for",
   "A results file contains the mesh's coordinates, blocks, connectivity, identifiers and node set members unchanged, exactly those of the requested nodal and element variables that the model has, in a readable form with one named component per column, and one time plane for the start, one after the first step and after every further output-frequency-th step, and one after the last step, each stamped with its time. The values of every variable belong to the node, element, block, component and time they are filed under.",
   ["inputs", "configurations"], "all sets of requested variables up to a size, all block counts, step counts and output frequencies of a small alphabet",
   NONE,
   ["src/nimble_exodus_output.cc", "src/nimble_data_manager.cc", "src/nimble_kokkos_model_data.cc", "src/nimble_data_utils.cc"],
   [("database creation and time planes", "src/nimble_exodus_output.cc"), ("label to data mapping", "src/nimble_kokkos_model_data.cc")],
   ["results file"]),
 P("C10", "Output already written survives a crash at any later point",
   "If the program is killed at any moment, every time plane whose writing had completed can be read back from the results file with the values an uninterrupted run gives, together with the mesh. The mesh file and the results of other runs are never touched.",
   ["crash_points"], "every storage call of a run as the kill point",
   "No test kills a run.",
   ["src/nimble_exodus_output.cc", "src/nimble_data_manager.cc", "src/nimble_genesis_mesh.cc"],
   [("open, write, close per plane", "src/nimble_exodus_output.cc")],
   ["results file after the crash"]),
 P("C11", "A storage failure never goes unnoticed",
   "If an operation on the mesh file or the results file fails and the Exodus library reports it, the run stops with a non-zero status and a message, on one process or on many; a warning of the library is passed on. A run whose disk no longer takes data never ends as if it had succeeded, and no run carries on with data reported as unreadable.",
   ["fault_sequences"], "every storage operation of a run failing, alone, with every error class",
   "No test injects a failure.",
   ["src/nimble_exodus_output.cc", "src/nimble_genesis_mesh.cc", "src/nimble.cc"],
   [("error reporting", "src/nimble_genesis_mesh.cc"), ("error reporting", "src/nimble_exodus_output.cc")],
   ["exit status and messages of the run"]),
 P("C12", "Element kinematics are exact for every uniform deformation",
   "For every valid hexahedron and every uniform displacement gradient the element's deformation gradient at each integration point is exactly that gradient plus the identity, volumes are exact, volume averages are the volume-weighted means of the point values, and rigid translation changes nothing. The result does not depend on which of the equivalent node orderings describes the element.",
   ["inputs"], "all hexahedra from a lattice of vertex perturbations and a lattice of displacement gradients, all proper renumberings",
   "The unit tests do not exercise elements.",
   ["src/nimble_element.cc", "src/nimble_element.h"],
   [("deformation gradient", "src/nimble_element.h"), ("shape functions", "src/nimble_element.cc")]),
 P("C13", "Mass is conserved",
   "The lumped nodal masses are positive and add up to the sum over blocks of density times volume of the undeformed body, each element contributing to its own nodes only, whatever the mesh, blocks, numbering or decomposition. The first accelerations under known forces are consistent with those masses.",
   ["inputs", "configurations"], "all small meshes from lattices of vertex perturbations, densities and block assignments, whole and split",
   "No test looks at masses.",
   ["src/nimble_element.h", "src/nimble_element.cc", "src/nimble_kokkos_block.cc", "src/nimble_kokkos_model_data.cc", "src/nimble_block.cc"],
   [("lumped mass", "src/nimble_element.cc"), ("assembly", "src/nimble_kokkos_model_data.cc")]),
 P("C14", "Internal forces balance and do the right work",
   "For every element shape, deformation and stress state the internal nodal forces of an element sum to zero, have zero net moment about the deformed positions when the stress is symmetric, and are minus the volume-weighted stress contracted with the spatial shape gradients, so their virtual work equals the stress power. The element tangent times nodal displacements gives the forces of the linearised stress. Assembled over a free body, total momentum is constant in time.",
   ["inputs"], "lattice of shapes, deformations and stress tensors; free bodies of a few elements with lattices of initial velocities",
   NONE,
   ["src/nimble_element.h", "src/nimble_element.cc", "src/nimble_kokkos_block.cc", "src/nimble_kokkos_model_data.cc"],
   [("nodal forces", "src/nimble_element.h")]),
 P("C15", "Material laws are the documented ones and respect frame indifference",
   "The elastic material is small-strain isotropic linear elasticity, the neohookean one the compressible law with pressure part K/2 (J - 1/J) and isochoric part G/J dev(J^-2/3 F F^T); every material gives zero stress in the undeformed state and the stress of its law for every deformation with positive volume. Hyperelastic stress rotates with the body under superposed rotations; the stress is the same through every interface the material offers, and the tangent moduli are the ones of the given bulk and shear modulus.",
   ["inputs"], "lattice of deformation gradients, rotations and material constants for every material",
   "One unit test evaluates one material at the identity.",
   ["src/nimble_material.cc", "src/nimble_material.h", "src/nimble_kokkos_material_factory.cc", "src/nimble_material_factory.cc"],
   [("elastic and neohookean stress", "src/nimble_material.cc")]),
 P("C16", "The critical time step estimate covers every element, wherever the body is",
   "The critical time step a run reports is the smallest, over all elements of all blocks on all processes, of element size over the speed sqrt(K/rho) of its material, where the size is the smallest distance of two nodes or side of the box around the element, if that is smaller; it does not change when the body is moved to another place, scales with the size of the body, and does not depend on which block or process an element is in. The run warns exactly when its step exceeds it.",
   ["inputs", "configurations"], "lattice of shapes, positions, scales, materials and numberings",
   "No test looks at the estimate.",
   ["src/nimble_element.h", "src/nimble_element.cc", "src/nimble_kokkos_block.cc", "src/nimble_kokkos_model_data.cc", "src/nimble_block.cc"],
   [("characteristic length", "src/nimble_element.h"), ("critical time step", "src/nimble_kokkos_block.cc")]),
 P("C17", "The contact surface is exactly the outer skin of the named blocks",
   "For every mesh of hexahedra and every choice of primary and secondary blocks, the faces used for contact are the faces of primary elements that belong to exactly one element of the primary blocks, each once, oriented outward and cut into the four triangles around its middle, and the contact nodes are exactly the nodes of the faces of the secondary blocks that belong to exactly one of their elements, each once, with the longest edge of those faces as its size. A block named twice counts once, and nothing depends on element order or node numbering.",
   ["inputs"], "all sub-assemblies of small element grids, all block assignments and renumberings",
   "The one contact unit test uses two hand-made entities.",
   ["src/nimble_contact_manager.cc", "src/nimble_contact_manager.h"],
   [("skinning", "src/nimble_contact_manager.cc"), ("entity creation", "src/nimble_contact_manager.cc")]),
 P("C18", "Closest point projection decides contact correctly",
   "For every node and triangle the projection reports contact exactly when the node lies behind the face, no deeper than the size of the face, and its perpendicular foot is inside the triangle (within the tolerance of the projection), with the correct gap, normal, barycentric coordinates and foot, independent of rigid motion and of which corner the triangle starts with.",
   ["inputs"], "lattices of triangles and node positions, rigid motions and cyclic corner orders",
   "The unit test projects a handful of points onto one triangle.",
   ["src/nimble_contact_manager.cc", "src/nimble_contact_manager.h"],
   [("projection", "src/nimble_contact_manager.cc")]),
 P("C19", "Contact forces balance and are deposited on the right nodes",
   "For every penetrating configuration the force on the node and the forces on the face are equal and opposite in sum, act along the normal with magnitude penalty times gap, shared evenly among the faces the node touches, are spread over the corners of the triangle by its barycentric coordinates (the middle of a face over its four corners), and are deposited on the mesh nodes the entities stand for, where all processes that share a node see the same sum. Entities in no contact add nothing; every evaluation uses the current positions and nothing of earlier evaluations; and a run accelerates every node by exactly the internal and contact force on it.",
   ["inputs", "histories"], "lattice of configurations with several entities sharing mesh nodes",
   "No test deposits contact forces.",
   ["src/nimble_contact_entity.h", "src/nimble_contact_entity.cc", "src/nimble_contact_manager.cc"],
   [("force distribution", "src/nimble_contact_entity.h"), ("scatter", "src/nimble_contact_manager.cc")]),
 P("C20", "The contact surface does not depend on how the mesh is split",
   "For every distribution of a mesh over processes, the contact faces and nodes owned by all processes together are exactly those of the unsplit mesh, each owned once, with the same sizes and identifiers and owned by a process that has them, and the exchange that finds them terminates under every message timing.",
   ["configurations", "schedules"], "every assignment of elements to processes of small grids",
   "No test builds contact entities in parallel.",
   ["src/nimble_contact_manager.cc", "src/nimble_vector_communicator.h"],
   [("removal of internal and ghost faces", "src/nimble_contact_manager.cc")]),
 P("C21", "Every process reads and writes its own files",
   "For every number of processes and every process index, the mesh file read and the results file written are named base.extension.P.R with R the zero-padded index of the process in the width of P, and base.extension in an unsplit run, whatever else the name contains; no two processes share a results file.",
   ["configurations", "inputs"], "all process counts up to a bound and all ranks, over an alphabet of base names, tags and extensions",
   "Tests use one or two processes and one name form.",
   ["src/nimble_parser.cc", "src/nimble.cc", "src/nimble_data_manager.cc"],
   [("file naming", "src/nimble_parser.cc")]),
 P("C22", "Linear solves and sparse storage are exact",
   "A sparse matrix holds exactly the entries put into it, for every pattern listed row by row, every order of filling it and every reuse of the container (which starts from zeros), and its products with vectors are those of the dense matrix. For every symmetric positive definite system the iterative solver returns the solution to its tolerance, counted against its limit of iterations, or reports failure, and it never reports success without having reduced the residual to the tolerance. The direct solver solves every invertible dense system and stops with a message on a singular one.",
   ["inputs", "histories"], "all small sparsity patterns and insertion orders, lattices of values and right-hand sides",
   "No test solves a linear system.",
   ["src/nimble_linear_solver.cc", "src/nimble_linear_solver.h", "src/nimble_utils.h"],
   [("conjugate gradients", "src/nimble_linear_solver.cc"), ("compressed rows", "src/nimble_linear_solver.h")]),
 P("C23", "Results do not depend on numbering, ordering or block splitting",
   "Renumbering nodes, reordering elements, changing global identifiers, or splitting a block into several of the same material gives the same results for every corresponding node and element at every output time.",
   ["inputs", "configurations"], "all node and element permutations of tiny meshes (a generating set for larger ones), all block splits",
   NONE,
   ["src/nimble_genesis_mesh.cc", "src/nimble_data_manager.cc", "src/nimble_kokkos_model_data.cc", "src/nimble_kokkos_block.cc", "src/nimble_mesh_utils.cc"],
   [("offsets of blocks in batched data", "src/nimble_kokkos_model_data.cc")],
   ["results file"]),
 P("C24", "Material parameters are taken exactly as written, or refused",
   "Every well-formed material line yields the named material with exactly the written parameter values in any order, any decimal number notation and any number of blanks between the words; unknown materials, unknown or missing parameters and values that are not numbers are refused with a message.",
   ["inputs"], "all parameter orders, number notations, spacings, omissions and single mutations for every material",
   "The unit tests parse three lines.",
   ["src/nimble_material_factory.cc", "src/nimble_material_factory_base.cc", "src/nimble_kokkos_material_factory.cc", "src/nimble_material.h"],
   [("parameter parsing", "src/nimble_material_factory_base.cc")]),
 P("C25", "Tensor kernels are algebraically correct",
   "Products, transposes, inverses, determinants, polar decompositions, eigen decompositions and logarithms of rotations and stretches satisfy their defining identities for every input, including repeated and nearly repeated eigenvalues, magnitudes from 1e-8 to 1e7, and rotations by any angle up to a half turn; a singular matrix is reported.",
   ["inputs"], "lattices of matrices, rotations and diagonal spectra with all coincidence patterns",
   "The unit test inverts a few matrices.",
   ["src/nimble_utils.h"],
   [("3x3 kernels", "src/nimble_utils.h")]),
 P("C26", "History variables carry over from step to step",
   "What a material is given at the start of every step (its state variables of every kind, the stress and the deformation gradient) is exactly what was left at the end of the previous step, separately for every element, integration point and variable, whatever other materials the blocks have. Before the first step the state variables and the stress are zero and the deformation gradient is the identity. Every point is asked once in every step, with the times at which the step begins and ends. Output of a state tensor shows the value at that time.",
   ["histories", "configurations"], "all combinations of declared state variable kinds and counts, blocks and step counts",
   "The shipped materials have no state variables, so no test reaches this.",
   ["src/nimble_kokkos_model_data.cc", "src/nimble_kokkos_defs.h", "src/nimble_kokkos_block_material_interface.cc", "src/integrators/explicit_time_integrator.cc"],
   [("state update", "src/nimble_kokkos_model_data.cc")]),
 P("C27", "Quasistatic solutions are in equilibrium",
   "A quasistatic run that reports success ends every load step with the internal forces of all unconstrained components below the requested tolerance, relative to the out-of-balance forces at the beginning of the step, and all constrained components at their prescribed displacements, or moved by their prescribed velocity times the step, later conditions replacing earlier ones. The forces, stresses, deformation gradients and volumes written belong to the displacements written. When equilibrium is not reached, or on several processes, it says so and does not report success; moderate deformations of well held bodies succeed, whatever the numbering.",
   ["inputs", "configurations"], "small meshes, materials, conditions and load steps",
   NONE,
   ["src/integrators/quasistatic_time_integrator.cc", "src/nimble_model_data.cc", "src/nimble_block.cc", "src/nimble_boundary_condition_manager.h", "src/nimble_linear_solver.cc"],
   [("Newton iteration", "src/integrators/quasistatic_time_integrator.cc")]),
 P("C28", "Command line options select what they say and nothing else",
   "Each command line option switches on exactly the feature it names, in every order and combination, and the deck named is the one read; options the build lacks, a missing deck and a deck that does not exist are refused with usage. Asking for help prints it and runs nothing; words the program does not know do not change what it selects.",
   ["inputs"], "all subsets and orders of options, with and without a deck name",
   "No test parses a command line.",
   ["src/nimble_cli.cc", "src/nimble_cli.h", "src/nimble.cc"],
   [("argument parsing", "src/nimble_cli.cc")]),
 P("C29", "The contact visualization file shows the contact surface as it is",
   "When a deck with contact asks for contact visualization, every process writes, beside its results, a file of the name the deck gives (tagged like the results file) with each of its contact faces as a triangle with nodes of its own and each of its contact nodes as an element of one node, at their places in the undeformed body and with identifiers that no other entity of any process has and that do not depend on the decomposition. At the times of the results file's planes it holds the displacements these places have there, which faces and nodes are in contact, and the number of faces in contact. A run that does not ask for it, or has no contact, writes no such file, and asking for it changes nothing in the results.",
   ["inputs", "histories", "configurations"], "pairs of bodies, motions, numberings, output frequencies and distributions over processes",
   "No test has contact in a run or reads such a file.",
   ["src/nimble_contact_manager.cc", "src/integrators/explicit_time_integrator.cc", "src/nimble_exodus_output.cc", "src/nimble_genesis_mesh.cc"],
   [("contact files", "src/nimble_contact_manager.cc")]),
 P("C30", "Every sample of an uncertainty run moves as its own parameters say",
   "A build with the uncertainty option, run with --use_uq, carries beside the nominal body one trajectory for each sample of the samples file. The parameters of a sample are the nominal ones plus, for each parameter a 'uq parameters' line names, its range times the entry of the sample's row (columns in the order of the materials and of the names on each line); they hold in every block of that material, and other blocks keep their nominal ones. An exact sample moves exactly as a plain run with its parameters (the masses being the nominal ones) would, under the same initial, velocity and displacement conditions; an approximate sample moves under the sum of the nominal and the exact forces weighted with its coefficients. The nominal results are those of a run without samples, parameter_samples.dat lists the parameters used, all this holds on any number of processes, and a samples file that does not fit is refused.",
   ["inputs", "configurations"], "bodies, uncertain parameters, samples, conditions, steppings and distributions over processes",
   "No unit test builds or runs the uncertainty option; its one regression case needs a comparison tool and a build that is not made here, and has one block, one parameter and one kind of condition.",
   ["src/uq/nimble_uq.cc", "src/uq/nimble_uq_block.cc", "src/uq/nimble_uq_model_data.cc", "src/nimble_model_data.cc", "src/nimble_block.cc", "src/nimble_boundary_condition_manager.h", "src/nimble_material.cc", "src/nimble.cc"],
   [("samples and closure", "src/uq/nimble_uq.cc"), ("forces and motion of the samples", "src/uq/nimble_uq_model_data.cc"), ("conditions on samples", "src/nimble_boundary_condition_manager.h")]),
 P("C31", "No input makes a run touch memory that is not its own",
   "Whatever deck, mesh (whole or in pieces), samples file and command line a run is given, well formed or damaged in any one place, the program reads and writes only memory it owns, uses no value that was never set, overflows none of its integers, and ends: it completes or it refuses the input. The results of an accepted input do not depend on what memory held before. A mesh whose elements or node sets refer to nodes the mesh does not have is refused.",
   ["inputs", "faults"], "decks, meshes, pieces, samples files and command lines, whole and damaged in one place",
   "No test gives the program a damaged input or runs it with instrumented memory; reading past an array, or a value never set, usually goes unseen on the inputs a test samples.",
   ["src/nimble_parser.cc", "src/nimble_genesis_mesh.cc", "src/nimble_boundary_condition.cc", "src/nimble_boundary_condition_manager.h", "src/nimble_expression_parser.cc", "src/nimble_exodus_output.cc", "src/nimble_kokkos_model_data.cc", "src/nimble_model_data.cc", "src/nimble_contact_manager.cc", "src/nimble_linear_solver.cc", "src/uq/nimble_uq.cc", "src/nimble_cli.cc", "src/nimble.cc"],
   [("reading decks", "src/nimble_parser.cc"), ("reading meshes", "src/nimble_genesis_mesh.cc"), ("fields and output", "src/nimble_kokkos_model_data.cc"), ("contact entities", "src/nimble_contact_manager.cc"), ("sparse storage", "src/nimble_linear_solver.cc")]),
 P("C32", "A build without MPI or Trilinos computes the same",
   "The program built without MPI and Trilinos, or with MPI but without Trilinos, gives for every deck those builds can run the results the full build gives: the same trajectories, prescribed values, contact forces and contact surface, quasistatic solutions and results files, and with MPI the same results on any number of processes as on one.",
   ["configurations", "inputs"], "the builds without MPI and Trilinos and without Trilinos alone; the decks, meshes, conditions, contact worlds and decompositions of C03, C04, C05, C09, C19, C27 and C29",
   "The test suite is built in one configuration; what the other branches of the conditional code do is not even compiled.",
   ["src/nimble_vector_communicator.h", "src/nimble.cc", "src/nimble_contact_manager.cc", "src/integrators/explicit_time_integrator.cc", "src/integrators/quasistatic_time_integrator.cc", "src/nimble_linear_solver.h", "src/nimble_parser.h", "src/nimble_data_manager.cc"],
   [("sums over processes, or none", "src/nimble_vector_communicator.h"), ("conditional parts of contact", "src/nimble_contact_manager.cc"), ("linear algebra", "src/nimble_linear_solver.h")]),
 P("C33", "A quasistatic load step starts from the state the one before left",
   "In a quasistatic run a material is given, in every evaluation of a load step, the state variables, stress and deformation gradient that the last evaluation of the previous step left at that element and integration point, before the first step the initial values the material states, zero stress and the identity; trial evaluations leave no trace. Every element of the block is evaluated alike, with the times at which the step begins and ends. What is written of every state variable, at a point or averaged over the element, is what the material left at the time of the plane, for the blocks whose material has it and no others.",
   ["histories", "inputs"], "materials with every set of state variables in every block, every block assignment of small bodies, numbers of load steps, output frequencies and kinds of loading",
   "The built-in materials have no state variables, so nothing in the test suite passes through the storage a history-dependent material relies on.",
   ["src/nimble_block.cc", "src/nimble_model_data.cc", "src/nimble_model_data.h", "src/nimble_data_utils.cc", "src/integrators/quasistatic_time_integrator.cc"],
   [("initial values and places of the state", "src/nimble_block.cc"), ("labels and storage", "src/nimble_model_data.cc"), ("exchange of the states", "src/nimble_model_data.h")]),
]
NOT_APPLICABLE = {}
if os.path.exists(os.path.join(V, "tools", "not_applicable.json")):
    NOT_APPLICABLE = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
drop = set(NOT_APPLICABLE.pop("_drop", []))


def main():
    pr = [p for p in PR if p["id"] not in drop]
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in pr:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in pr:
        i = p["id"]
        if i in PROPS:
            t = PROPS[i]
            checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i,
                           "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                           "technique": t["technique"], "level": t["level"], "level_note": t["note"]})
        else:
            na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "its check is not built yet")})
    m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
         "notes": "no hooks in /repo: the machinery works through the public interfaces, the MPI and Exodus library calls, and the files"}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks,", len(na), "not claimed")


main()
