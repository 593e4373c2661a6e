"""Writes properties.jsonl (single source of the property texts)."""
import json, os
P = []
def add(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                   **({"observe_at": observe} if observe else {}), **({"state": state} if state else {}), hook_needed=hook)))

add("C01", "Generated C computes exactly the symbolic expressions it was given",
 "For every list of symbolic expressions and every combination of code-generation options (common-subexpression elimination on/off, preprocessing/factoring, SIMD and FMA output, variable prefixes, declarations), the emitted C assigns to each left-hand side the value of its expression, for all input values. Each left-hand side is assigned exactly once, in the order given, and every temporary is defined before use.",
 ["programs", "configurations", "inputs"], "All expression lists over + - * / integer and rational powers and the supported elementary functions, all option combinations, all values of the free symbols.",
 "Doctests compare the emitted text of a handful of expressions with stored strings; nothing evaluates the emitted C, and the option space is a product the examples sample at a few points.",
 ["nrpy/c_codegen.py", "nrpy/helpers/cse_preprocess_postprocess.py", "nrpy/helpers/simd.py", "nrpy/helpers/custom_c_codegen_functions.py"],
 [("C code generation", "nrpy/c_codegen.py:c_codegen"), ("CSE pre/postprocessing", "nrpy/helpers/cse_preprocess_postprocess.py"), ("SIMD expression rewriting", "nrpy/helpers/simd.py:expr_convert_to_simd_intrins")],
 ["compiled output of c_codegen()"])
add("C02", "Finite-difference kernels are exact on polynomials up to their order",
 "For every supported derivative operator (centered first and second, mixed second, up/downwinded, fully one-sided, Kreiss-Oliger) and every even order n, the emitted kernel evaluates at each grid point to a linear stencil of the named grid function whose result equals the true derivative for every polynomial up to the degree that order promises, uses only points within the stencil radius, and is identical whether inlined, put into helper functions, or SIMD-vectorised. An upwinded derivative uses the upwind stencil where the control vector is positive and the downwind stencil elsewhere.",
 ["programs", "configurations", "inputs"], "All operators, directions, orders 2..8 (and beyond), helper-function / inline / SIMD modes, all grid data.",
 "Tests compare coefficient strings for a few (operator, order) pairs; emitted kernels are compiled but never run.",
 ["nrpy/finite_difference.py", "nrpy/c_codegen.py", "nrpy/grid.py"],
 [("coefficient generation", "nrpy/finite_difference.py:compute_fdcoeffs_fdstencl"), ("stencil-to-C", "nrpy/finite_difference.py:proto_FD_operators_to_sympy_expressions"), ("kernel assembly", "nrpy/c_codegen.py:gridfunction_management_and_FD_codegen")],
 ["compiled output of c_codegen(enable_fd_codegen=True)"])
add("C03", "One Method-of-Lines step realises the selected Runge-Kutta tableau",
 "For every fixed-step Runge-Kutta method offered, one call of the generated time-step function advances the state by exactly the explicit Runge-Kutta update of that method's tableau: every right-hand-side evaluation sees the stage state and stage time the tableau prescribes, post-stage operations are applied to every stage state and to the final state before it is next used, and the step counter and time advance by one step. Every storage buffer the step needs is allocated exactly once before and released exactly once after.",
 ["programs", "configurations", "histories"], "All registered fixed-step tableaux, all right-hand sides and post-stage operations, any number of consecutive steps, both the BHaH and the message-driven (superB) variants.",
 "Tests compare generated text for a few methods and check order conditions of tableaux, never the executed data flow between stage buffers.",
 ["nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py", "nrpy/infrastructures/BHaH/MoLtimestepping/RK_Butcher_Table_Dictionary.py", "nrpy/infrastructures/superB/MoL.py"],
 [("step generation", "BHaH/MoLtimestepping/MoL.py:register_CFunction_MoL_step_forward_in_time"), ("buffer assignment", "BHaH/MoLtimestepping/MoL.py:generate_gridfunction_names")],
 ["rhs/post_rhs calls made by the compiled MoL_step_forward_in_time()"])
add("C04", "Parameter registries behave as specified maps under every call history",
 "A generation-time parameter keeps the value of its first registration until explicitly set, a lookup (with or without a module prefix) returns the current value, and setting or looking up an unknown name is rejected without side effects. A run-time parameter is registered at most once by name with its type, default, scope and file/struct visibility as requested (re-registering as part of a group replaces it), its default changes only through the adjust call, and ill-formed registrations are rejected without changing the registry.",
 ["histories", "inputs"], "All finite histories of registration, lookup, set, group registration and adjust calls.",
 "Doctests exercise one short history per function; the interaction of repeated, conflicting and failing calls is unbounded.",
 ["nrpy/params.py"], [("generation-time parameters", "nrpy/params.py:NRPyParameter"), ("run-time parameters", "nrpy/params.py:CodeParameter, register_CodeParameters, adjust_CodeParam_default")],
 ["return values and registries after each call"])
add("C05", "Every registered C function reaches the generated project exactly once",
 "Whatever is registered, in whatever order, project output writes each registered function to exactly one source file in its requested subdirectory, declares each function exactly once in the prototype header with the signature it is defined with, and lists exactly the written source files in the build recipe, so the project links with no missing or duplicate definitions. Registering the same function name twice or with invalid arguments is rejected, and leaves earlier registrations intact.",
 ["histories", "configurations"], "All sets and orders of registered functions, subdirectories, name prefixes, library vs executable output, extra sources.",
 "Example projects fix one registration history each; the doctests look at one or two functions.",
 ["nrpy/c_function.py", "nrpy/infrastructures/BHaH/Makefile_helpers.py"],
 [("registration", "nrpy/c_function.py:register_CFunction"), ("output", "nrpy/infrastructures/BHaH/Makefile_helpers.py:output_CFunctions_function_prototypes_and_construct_Makefile")],
 ["generated directory tree, compiled and linked"])
add("C06", "Grid-function numbering and parities are consistent and order-independent",
 "Each registered grid function gets, within its group, a unique index; the indices of a group are exactly 0..N-1 in name order, independently of registration order, and match the generated index macros, per-group counts and parity tables. Tensor components are registered once per independent component under the declared symmetry with the parity type implied by their indices, and registering a name twice keeps the first registration while illegal names, groups, ranks or options are rejected.",
 ["histories", "configurations"], "All registration histories of scalars and tensors over all groups and infrastructures (names that differ in more than letter case).",
 "Doctests register a few names in one order; consistency across macros, parity tables and access strings is not checked.",
 ["nrpy/grid.py", "nrpy/infrastructures/BHaH/BHaH_defines_h.py", "nrpy/infrastructures/BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py"],
 [("registration", "nrpy/grid.py:register_gridfunctions*"), ("numbering", "nrpy/grid.py:BHaHGridFunction.gridfunction_lists, gridfunction_defines"), ("parity", "nrpy/grid.py:set_parity_types")],
 ["gf lists, index macros, parity tables"])
add("C07", "Parallel code generation yields the serial result under every schedule",
 "Running the registered generation tasks in parallel leaves all registries (functions, parameters, grid functions and auxiliary tables) with the same contents as running them serially, for every assignment of tasks to workers, every completion order and every number of workers. Every deferred task runs exactly once, and a failing task is reported instead of silently dropped.",
 ["schedules", "histories", "fault_sequences"], "All completion orders, worker counts and failing subsets of tasks whose effects are independent.",
 "The examples run one schedule per machine and the output is not compared with the serial mode.",
 ["nrpy/helpers/parallel_codegen.py"], [("deferral", "nrpy/helpers/parallel_codegen.py:pcg_registration_phase"), ("execution and merge", "nrpy/helpers/parallel_codegen.py:do_parallel_codegen, unpack_NRPy_environment_dict")],
 ["registries after do_parallel_codegen()"])
add("C08", "The on-disk result cache never changes a result and survives crashes",
 "A cached computation returns the value a fresh computation would return: distinct keys never share an entry, a value read back equals the value stored, and a cold, warm or concurrently used cache give the same result. A process killed at any point while updating the cache leaves, for every key, either no entry, the previous entry or the complete new one, so later runs still succeed.",
 ["crash_points", "schedules", "histories"], "All interleavings of readers and writers and all kill points during a cache update.",
 "Tests neither kill a process mid-write nor run concurrent readers.",
 ["nrpy/helpers/cached_functions.py"], [("cache file read/write", "nrpy/helpers/cached_functions.py:read_cached, write_cached"), ("cached simplification", "nrpy/helpers/cached_functions.py:cached_simplify")],
 ["files under the cache directory at every system call"])
add("C09", "Files are rewritten only when content changes, and never left half-written",
 "Writing generated text through the conditional updater leaves the target file with exactly that text (after the configured formatting and encoding); when the existing file already holds it (up to leading and trailing blank space), the file is left untouched, including its modification time. If generating the text fails part-way, or the process is killed at any point, the target holds either its previous or the complete new content.",
 ["histories", "fault_sequences", "inputs"], "All sequences of updates (content, formatting options, encodings), pre-existing contents and failures inside the update block.",
 "Doctests cover one write and one unchanged rewrite.",
 ["nrpy/helpers/conditional_file_updater.py"], [("conditional update", "nrpy/helpers/conditional_file_updater.py:ConditionalFileUpdater")],
 ["target file content and mtime"])
add("C10", "Run-time parameters resolve as default, then parameter file, then command line",
 "In the generated executable every run-time parameter ends up with the value given on the command line if it is steerable there and given, else the value in the parameter file, else its registered default, with its declared type and array elements in order. Malformed input (wrong number of command-line arguments, missing file, wrong type or element count, the same parameter set twice) is rejected with an error exit instead of silently running with other values, and the default parameter file the generator writes reproduces all defaults.",
 ["inputs", "configurations"], "All sets of parameters of all supported types, all parameter files and command lines.",
 "The generated parser is compiled by the examples but never run.",
 ["nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py", "nrpy/infrastructures/BHaH/CodeParameters.py"],
 [("generated parser", "BHaH/cmdline_input_and_parfiles.py:register_CFunction_cmdline_input_and_parfile_parser"), ("default parfile", "BHaH/cmdline_input_and_parfiles.py:generate_default_parfile")],
 ["commondata after cmdline_input_and_parfile_parser() in the compiled program"])
add("C11", "A checkpoint restores exactly the state written, for every crash point",
 "Restoring from a checkpoint yields bit-for-bit the evolved grid data, per-grid parameters and common parameters that were current when it was written, for any number of grids and any mask of evolved points, and the write cadence follows the configured interval. A run killed at any point while checkpointing can still restart from a complete checkpoint, and an incomplete or mismatched file is never accepted as a valid state.",
 ["crash_points", "histories", "configurations"], "All histories of checkpoint writes and restores, all kill points during a write, all truncations of the file.",
 "The checkpoint code is only compiled; no test writes or reads a checkpoint.",
 ["nrpy/infrastructures/BHaH/checkpointing.py"], [("writer", "BHaH/checkpointing.py:register_CFunction_write_checkpoint"), ("reader", "BHaH/checkpointing.py:register_CFunction_read_checkpoint")],
 ["file at every system call; griddata after read_checkpoint()"])
add("C12", "Curvilinear boundary conditions fill every ghost point consistently",
 "For every supported coordinate system and grid size, after applying boundary conditions each ghost-zone point holds exactly one of: the value of the interior point it geometrically coincides with, times the sign implied by the tensor parity of the grid function, or the outer-boundary value (quadratic-order extrapolation along the outward normal from already-filled points, or the radiation condition). Every ghost point is filled, interior points are unchanged, and the result does not depend on the initial ghost data.",
 ["configurations", "inputs"], "All coordinate systems, even grid sizes, all parity types, arbitrary interior and garbage ghost data.",
 "Generated boundary code is only compiled; its index maps are computed at run time.",
 ["nrpy/infrastructures/BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py", "nrpy/reference_metric.py", "nrpy/grid.py"],
 [("boundary map setup", "CurviBoundaryConditions.py:register_CFunction_bcstruct_set_up"), ("inner BC application", "CurviBoundaryConditions.py:register_CFunction_apply_bcs_inner_only"), ("outer BC application", "CurviBoundaryConditions.py:register_CFunction_apply_bcs_outerextrap_and_inner")],
 ["grid function arrays after the compiled boundary-condition functions"])
add("C13", "Chare decomposition is a bijection of the global grid",
 "For every global grid size and every admissible chare decomposition, each global interior point belongs to exactly one chare, the local/global index maps are mutual inverses, the lists of ghost points to send and to receive match pairwise in number and order and refer to the same global points, and grid geometry (coordinates, spacings, interior extents) seen by a chare equals that of the global grid.",
 ["configurations"], "All global sizes and chare counts dividing them, all coordinate systems.",
 "superB examples are generated but neither compiled nor run (no Charm++ here).",
 ["nrpy/infrastructures/superB/chare_communication_maps.py", "nrpy/infrastructures/superB/numerical_grids.py", "nrpy/infrastructures/superB/CurviBoundaryConditions.py"],
 [("index maps", "superB/chare_communication_maps.py"), ("chare grids", "superB/numerical_grids.py"), ("non-local inner boundary maps", "superB/CurviBoundaryConditions.py")],
 ["arrays filled by the compiled map-building functions"])
add("C14", "Message-driven evolution equals the single-grid evolution for every schedule",
 "For every message delivery schedule that keeps per-channel order, the message-driven (superB) evolution finishes, and each stage of each chare uses neighbour ghost data and non-local boundary data of exactly that stage, so the assembled result (fields at every stage and output files) equals that of the undecomposed evolution.",
 ["schedules", "configurations"], "All delivery schedules (FIFO per sender/receiver/entry), chare counts and step counts.",
 "Nothing of superB is executed by the tests, and a race shows only under particular schedules.",
 ["nrpy/infrastructures/superB/timestepping_chare.py", "nrpy/infrastructures/superB/MoL.py", "nrpy/infrastructures/superB/CurviBoundaryConditions.py"],
 [("control flow", "superB/timestepping_chare.py:generate_entry_methods / output_timestepping_ci"), ("stage functions", "superB/MoL.py")],
 ["message send/receive events of the generated chare code on a stand-in runtime"])
add("C15", "Generated loops visit every requested grid point exactly once",
 "For every loop the generators emit (plain, tiled, simple loops over interior or all points, SIMD strides, 1D/2D slices), the body runs exactly once for every index tuple in the requested region and for no other, in nested order for serial loops, for every bound including empty ones, and slice loops select exactly the nearest points to the requested axis or plane.",
 ["programs", "configurations"], "All bounds, increments, tilings, pragmas, regions, coordinate systems and grid sizes.",
 "Tests compare generated loop text with stored strings; loops are not executed.",
 ["nrpy/helpers/loop.py", "nrpy/infrastructures/BHaH/simple_loop.py"],
 [("loops", "nrpy/helpers/loop.py:loop, loop1D"), ("simple and slice loops", "nrpy/infrastructures/BHaH/simple_loop.py")],
 ["index tuples printed by the compiled loops"])
add("C16", "Tensor declarations and index algebra respect symmetry and inverse identities",
 "A declared indexed expression has one symbol per index tuple with the documented name, equal under exactly the declared (anti)symmetries and zero where antisymmetry requires; symmetric matrix inverters return the true inverse and determinant in 2, 3 and 4 dimensions, and the permutation symbols and tensors have the signs of their permutations. Invalid symmetry options, ranks or dimensions are rejected.",
 ["inputs"], "All ranks 1-4, dimensions 2-4, symmetry options (over disjoint groups of index slots) and name prefixes.",
 "Doctests check a few declared symbols and one inverse.",
 ["nrpy/indexedexp.py"], [("declaration", "nrpy/indexedexp.py:declarerank*"), ("symmetry", "nrpy/indexedexp.py:symmetrize_rank*"), ("inverses", "nrpy/indexedexp.py:symm_matrix_inverter*, generic_matrix_inverter*")],
 ["returned nested lists"])
add("C17", "Generated parameter structs and headers match the registered parameters",
 "Every run-time parameter appears in exactly one of the common and per-grid structs with its declared type, receives its registered default (in every element of a numeric array) before any user code runs, and is unpacked under its own name with its current value by the generated headers, in scalar and SIMD form, through pointer and by-value access.",
 ["configurations", "histories"], "All sets of registered parameters of all supported types and scopes.",
 "One small parameter set is compared with stored text; the generated code is not run.",
 ["nrpy/infrastructures/BHaH/CodeParameters.py", "nrpy/infrastructures/BHaH/BHaH_defines_h.py", "nrpy/infrastructures/BHaH/griddata_commondata.py"],
 [("structs", "BHaH/BHaH_defines_h.py"), ("defaults and headers", "BHaH/CodeParameters.py"), ("extra struct members", "BHaH/griddata_commondata.py")],
 ["values printed by a compiled program including the generated headers"])
add("C18", "Coordinate-dispatching wrappers call the right specialised function",
 "For every set of coordinate systems and every function specialised per coordinate system, the wrapper forwards all arguments to, and returns the result of, the specialisation for the coordinate system the grid is set to, and aborts for any other; distinct coordinate systems never share an identifier. Precomputed metric storage is allocated, filled, readable and released once per grid for each coordinate system.",
 ["configurations"], "All sets of coordinate systems, function signatures and grid assignments.",
 "Examples use one coordinate system each; wrappers are never executed with a mismatching grid.",
 ["nrpy/infrastructures/BHaH/rfm_wrapper_functions.py", "nrpy/infrastructures/BHaH/rfm_precompute.py"],
 [("dispatch", "BHaH/rfm_wrapper_functions.py:register_CFunctions_CoordSystem_wrapper_funcs"), ("precompute", "BHaH/rfm_precompute.py:ReferenceMetricPrecompute")],
 ["calls recorded from the compiled wrappers"])
add("C19", "Code generation is deterministic",
 "Generating the same project twice gives byte-identical files, independent of hash randomisation, of earlier unrelated generations in the same process, of a warm or cold cache, and of serial or parallel generation.",
 ["histories", "configurations", "schedules"], "All hash seeds, prior histories, cache states and generation modes.",
 "Tests generate each project once and compare small fragments.",
 ["nrpy/c_codegen.py", "nrpy/finite_difference.py", "nrpy/helpers", "nrpy/infrastructures"],
 [("sorted iteration", "all output functions"), ("parallel generation", "nrpy/helpers/parallel_codegen.py")],
 ["generated project trees"])
add("C20", "Einstein Toolkit thorn metadata agrees with what was registered",
 "In a generated thorn each registered grid function is declared exactly once in its group with its tags, each run-time parameter of the thorn is declared exactly once with its type and default, every function with a schedule entry is scheduled in the requested bin exactly once, and every source file of the thorn is listed in its build file, for every set of registrations and thorns. The generated set-up code acts on every grid function exactly once: evolved variables are registered with the time stepper, get their right-hand side zeroed and their outer boundary treatment with their own asymptotic value and speed, auxiliary variables get theirs, and reflection symmetries/parities follow from each component's indices; code that reads parameters reads the value of the named thorn.",
 ["histories", "configurations"], "All sets of registered functions, schedules, grid functions and parameters, distributed over thorns, for both toolkit variants.",
 "Two example thorn sets are generated and never parsed.",
 ["nrpy/infrastructures/ETLegacy", "nrpy/infrastructures/CarpetX"],
 [("ccl generation", "interface_ccl.py, param_ccl.py, schedule_ccl.py, make_code_defn.py")],
 ["generated .ccl files"])
add("C21", "Expression validation accepts exactly numerically equal expressions",
 "Comparing a dictionary of expressions with trusted values accepts exactly when every expression has the same name set and agrees to the stated number of digits, independent of dictionary order and hashing; any changed, missing or extra expression is reported. Two expressions are asserted equal only if their difference vanishes for generic arguments.",
 ["inputs", "histories"], "All expression dictionaries and perturbations of their entries.",
 "The validators are the tests' own oracle; nothing checks that they reject.",
 ["nrpy/validate_expressions/validate_expressions.py", "nrpy/helpers/generic.py"],
 [("numeric comparison", "nrpy/validate_expressions/validate_expressions.py:compare_or_generate_trusted_results, assert_equal"), ("string comparison", "nrpy/helpers/generic.py:validate_strings")],
 ["accept/reject outcome"])
add("C22", "The generated program runs its life cycle in order and frees what it allocates",
 "A generated executable initialises parameters, grids and initial data once, then alternates diagnostics and time steps as long as the simulation time is below the final time (so it stops at the first step boundary at or past it, and takes no step if there is nothing to do), runs the requested hooks in their documented places, gives every grid its parameter defaults, cell-centred points and requested resolution, uses a time step of CFL_FACTOR times the smallest proper spacing over all grids, and releases every allocation exactly once, for any number of grids and any final time; the library entry points (bhah_initialize/evolve/finalize) keep the same contract, and a run restarted from a checkpoint continues bit for bit.",
 ["configurations", "histories"], "All hook combinations, grid counts, final times and time steps.",
 "Examples are compiled but not run.",
 ["nrpy/infrastructures/BHaH/main_c.py", "nrpy/infrastructures/BHaH/griddata_commondata.py", "nrpy/infrastructures/BHaH/numerical_grids_and_timestep.py"],
 [("main loop", "BHaH/main_c.py:register_CFunction_main_c"), ("grid set-up", "BHaH/numerical_grids_and_timestep.py"), ("release", "BHaH/griddata_commondata.py:register_CFunction_griddata_free")],
 ["calls recorded from the compiled program; allocator balance"])
add("C23", "Vector intrinsics compute the same values as scalar arithmetic",
 "For every instruction set the vector-intrinsics header supports, and for its scalar fallback, each arithmetic, fused, load/store, broadcast, comparison and horizontal operation equals the scalar operation applied lane by lane.",
 ["inputs", "configurations"], "All operations, instruction sets available on the build machine, all lane values.",
 "The header is only compiled in one configuration.",
 ["nrpy/helpers/simd_intrinsics.h"], [("macro definitions", "nrpy/helpers/simd_intrinsics.h")],
 ["lane values of compiled intrinsics"])
add("C24", "superB checkpoint-restart and chare migration leave the run unchanged",
 "With checkpointing enabled a superB program writes its checkpoints exactly at the steps the requested interval names, and a run in which every chare is packed and rebuilt from what was packed (restart from any checkpoint, with messages still in flight lost; migration of any waiting chare at any point of the protocol) evolves the same grid functions, time and step count and writes the same diagnostics as the undisturbed run, without waiting forever, reading memory of the old chare or disagreeing between sizing, packing and unpacking.",
 ["crash points", "schedules", "configurations"], "All checkpoints of a run, all points at which a chare waits, delivery orders, coordinate systems, time integrators, decompositions.",
 "Charm++ is absent from the test environment, so no test packs or unpacks a chare.",
 ["nrpy/infrastructures/superB/superB/superB_pup.py", "nrpy/infrastructures/superB/timestepping_chare.py", "nrpy/infrastructures/superB/superB/superB.h"],
 [("packing", "superB/superB/superB_pup.py:register_CFunction_superB_pup_routines"), ("checkpoint protocol", "superB/timestepping_chare.py:output_timestepping_ci")],
 ["state and output of the compiled program at every stage after restart/migration"])
add("C25", "Grid and Cartesian coordinates convert into each other without loss",
 "For every coordinate system with an inverse map, grid size and position of the grid's origin, converting a grid point to Cartesian coordinates and back returns the same coordinates and grid indices; every place inside a point's cell is assigned to that point; a ghost point beyond an inner boundary lies where its partner point lies and is read back as that partner; moving the grid's origin moves every Cartesian point by the same amount; the variant relative to the global grid centre ignores that offset.",
 ["inputs", "configurations"], "All coordinate systems, grid sizes, ghost zones, origins and points (ghost points included).",
 "No test compiles or runs the generated conversion functions.",
 ["nrpy/infrastructures/BHaH/xx_tofrom_Cart.py", "nrpy/reference_metric.py", "nrpy/infrastructures/BHaH/numerical_grids_and_timestep.py"],
 [("conversions", "nrpy/infrastructures/BHaH/xx_tofrom_Cart.py:register_CFunction_xx_to_Cart, register_CFunction__Cart_to_xx_and_nearest_i0i1i2"), ("maps", "nrpy/reference_metric.py:xx_to_Cart, Cart_to_xx")],
 ["values returned by the compiled conversion functions"])
add("C26", "Diagnostic files hold the requested quantities at exactly the right points",
 "The generated nearest-point diagnostics write, for every coordinate system, grid size, grid position and set of requested quantities, one row with the time and the quantities at the grid centre (0D), one row per point nearest to the axis sorted along it (1D) and one row per point nearest to the plane (2D), each with the point's Cartesian position and the values of that same point; the file is named by the requested format, started anew at the first step and appended to afterwards, so no earlier output of the run is lost.",
 ["histories", "configurations"], "All coordinate systems, sizes, quantity lists, file name formats and sequences of outputs.",
 "Doctests compare generated text for a few coordinate systems; nothing is run.",
 ["nrpy/infrastructures/BHaH/diagnostics/output_0d_1d_2d_nearest_gridpoint_slices.py", "nrpy/infrastructures/BHaH/simple_loop.py"],
 [("0D, 1D, 2D output", "nrpy/infrastructures/BHaH/diagnostics/output_0d_1d_2d_nearest_gridpoint_slices.py"), ("slices", "nrpy/infrastructures/BHaH/simple_loop.py:simple_loop_1D, simple_loop_2D")],
 ["files written by the compiled functions"])
add("C27", "Inline scripts run exactly as marked in the host file",
 "For every text file, the inline-script runner executes exactly the code between start and end markers, block by block in file order and in one shared namespace, whatever comment style, indentation or nesting the code is written in; text that merely mentions a marker is ignored; a stray, nested or missing marker, invalid code or a failing script ends the run with an error after exactly the preceding blocks have run.",
 ["inputs", "histories"], "All sequences of marker, code and text lines, comment styles and indentations.",
 "Doctests show four files.",
 ["bin/nrpyinline.py"], [("runner", "bin/nrpyinline.py:run_script_from_file, strip_comment_markers, main")],
 ["what the scripts print, and how the run ends"])
add("C28", "ADM and BSSN variables describe the same slice after every conversion",
 "For every lapse, shift, spatial metric, extrinsic curvature and stress-energy, given in the Cartesian or spherical basis, the generated initial-data reader fills the grid with BSSN variables that describe the same slice in the basis of the grid: conformal metric times the conformal factor gives the metric back, its determinant is that of the reference metric, trace and trace-free part give the extrinsic curvature back, shift and matter are the same vectors and tensors, and lambda^i is the conformal connection of the stored metric (taken after the inner boundary conditions). The Einstein Toolkit conversions (ETLegacy and CarpetX) do the same, and converting back yields the ADM data exactly; enforcing the determinant constraint only rescales the conformal metric and touches nothing else; raising stress-energy indices inverts lowering them; the lapse floor is a maximum. The transforms between the Cartesian basis and the grid's are those of the coordinate map for every vector, covector and rank-2 tensor, symmetric or not.",
 ["inputs"], "All ADM and BSSN values, coordinate systems, bases, conformal-factor choices, grid offsets and finite-difference orders.",
 "Tests pin the symbolic equations at one point each; no test runs a generated conversion.",
 ["nrpy/infrastructures/BHaH/general_relativity/ADM_Initial_Data_Reader__BSSN_Converter.py", "nrpy/infrastructures/ETLegacy/general_relativity/ADM_to_BSSN.py", "nrpy/helpers/jacobians.py"],
 [("reader", "nrpy/infrastructures/BHaH/general_relativity/ADM_Initial_Data_Reader__BSSN_Converter.py:register_CFunction_initial_data_reader__convert_ADM_Sph_or_Cart_to_BSSN"), ("thorns", "nrpy/infrastructures/ETLegacy/general_relativity/BSSN_to_ADM.py:register_CFunction_BSSN_to_ADM"), ("constraint", "nrpy/infrastructures/BHaH/general_relativity/BSSN_C_codegen_library.py:register_CFunction_enforce_detgammabar_equals_detgammahat")],
 ["grid functions after the reader, the conversions and the constraint enforcement"])
add("C29", "GPU kernels cover the grid once and copies move exactly what they name",
 "For every kernel object, its generated function, launch block and call fit together: every argument arrives under its own name, explicit threads, blocks, shared memory and stream are those requested, and with automatic block counts every point of a grid of any size is handled by exactly one thread. A kernel that needs launch settings and has none is rejected, and settings may be reused for several kernels. Copies of grid functions between host and device move exactly the named function, in the named direction, and are complete once the returned stream has been waited for; coordinates and parameters arrive for every grid; global minimum, maximum and sum are those of the data for any array length.",
 ["inputs", "schedules"], "All parameter lists, launch settings, grid sizes, stream numbers, copy histories, array lengths and thread orders.",
 "Tests compare a few generated texts; no test runs a kernel or a copy.",
 ["nrpy/helpers/gpu/gpu_kernel.py", "nrpy/helpers/gpu/cuda_utilities.py"],
 [("launch", "nrpy/helpers/gpu/gpu_kernel.py:GPU_Kernel"), ("copies and reductions", "nrpy/helpers/gpu/cuda_utilities.py:register_CFunctions_HostDevice__operations, CUDA_reductions")],
 ["generated CUDA text executed on an emulated device"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as fh:
    for p in P:
        fh.write(json.dumps(p) + "\n")
