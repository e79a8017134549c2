"""Single source of properties.jsonl and MANIFEST.json (python3 tools/mkmeta.py)."""
D = "include/HyperHDG/dense_la.hxx"
L = "include/HyperHDG/wrapper/lapack.hxx"
GL = "include/HyperHDG/global_loop/"
GLS = [GL + f for f in ("elliptic.hxx", "parabolic.hxx", "nonlinear_eigenvalue.hxx",
                        "shifted_inverse_eigenvalue.hxx", "mass_approx_eigenvalue.hxx", "prototype.hxx")]
ONLY = ("The only test that runs here (point_functions) evaluates a handful of fixed vectors; ")

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=mech, observe_at=observe))
    if state:
        d["anchors"]["state"] = state
    P.append(d)


prop("P01", "Small dense vectors and matrices compute what linear algebra defines",
     "Every arithmetic operation on small vectors and matrices (entrywise and scalar arithmetic, products with and without "
     "transposition, scalar products, norms, diagonal and identity matrices, row, column and slice access, comparison) returns "
     "exactly what its mathematical definition says for the given entries. Operands that are not the documented target of the "
     "operation keep their values, and the in-place and the value-returning forms agree.",
     ["inputs", "configurations"], "for all entry values and all row and column counts of the operands",
     ONLY + "an index, stride or aliasing mistake shows up only for particular non-square shapes or operand orders.",
     [D], ["include/HyperHDG/dense_la.hxx: SmallMat operators, mat_times_mat family, diagonal, scalar_product, norms"],
     ["the returned object, the in/out operand, operands passed by const reference"])

prop("P02", "Element access of small matrices and vectors is exact and bounds-checked",
     "Reading or writing entry (i, j) of a small matrix, or entry i of a small vector, touches exactly that entry and no other "
     "one, rows and columns can be read and replaced individually, and construction fills every entry with the documented value. "
     "With assertions enabled, an index outside the valid range aborts the program instead of touching memory.",
     ["inputs", "configurations"], "for all indices (inside and outside the range), entries and shapes",
     ONLY + "they never use an index that is out of range, nor every position of rectangular matrices.",
     [D, "include/HyperHDG/hy_assert.hxx"],
     ["include/HyperHDG/dense_la.hxx: loc_matrix_index, operator(), operator[], get_column, set_column, constructors"],
     ["returned reference, full contents after a write, abort"])

prop("P03", "Division by zero entries raises the documented exception",
     "Dividing a small vector or matrix, or a scalar, by a zero scalar or by a small vector or matrix that has a zero entry "
     "throws the library's division-by-zero exception. Whenever no divisor is zero, the call returns normally with the exact "
     "entrywise quotient.",
     ["inputs", "configurations"], "for all dividends and divisors, whichever entry is zero",
     ONLY + "no test divides by zero, let alone by an object whose only zero sits at an arbitrary position.",
     [D], ["include/HyperHDG/dense_la.hxx: SmallMatDivByZeroException, operator/, operator/="],
     ["thrown exception, returned quotient"])

prop("P04", "Small linear solves follow the LAPACK contract and report singularity",
     "Solving a small linear system hands the solver the true system dimension, number of right-hand sides, leading dimensions, "
     "a pivot array that is large enough and column-major data, and returns the solver's solution for every right-hand side. If "
     "the solver reports failure (a singular matrix), the library's LAPACK exception is thrown; operands that are not overwritten "
     "by contract keep their values.",
     ["inputs", "fault_sequences"], "for all matrices, right-hand sides, sizes, and every success or failure status of LAPACK",
     ONLY + "no test makes LAPACK fail or uses several right-hand sides.",
     [L, D], ["include/HyperHDG/wrapper/lapack.hxx: lapack_solve", "include/HyperHDG/dense_la.hxx: operator/ for matrices"],
     ["arguments of the external LAPACK calls, returned solution, thrown exception"])

prop("P05", "QR decomposition and determinant are mathematically consistent",
     "The QR decomposition of a small matrix returns an orthogonal Q of determinant one and an upper triangular R whose diagonal "
     "entries are non-negative except possibly the first one, such that their product is the original matrix; the full and the "
     "reduced R agree. The computed determinant is the product of the diagonal entries of R with the sign that belongs to the "
     "reflections actually used.",
     ["inputs", "configurations"], "for all matrices (including ones whose columns need no reflection) and all row and column counts",
     ONLY + "no test decomposes a matrix of every shape or one that is already triangular.",
     [L, D], ["include/HyperHDG/wrapper/lapack.hxx: lapack_qr_decomp*, lapack_det", "include/HyperHDG/dense_la.hxx: qr_decomp*, determinant"],
     ["returned Q, R and determinant"])

prop("P06", "Degrees of freedom of hypernodes partition the global index range",
     "The degrees of freedom of different hypernodes are disjoint, together they are exactly the indices below the global number "
     "of degrees of freedom, and the per-node order is ascending. Gathering, setting and adding values at a hypernode touches "
     "precisely these entries of the global vector and no others, with a range check in debug builds; the entity counts used for "
     "hypercubes are the combinatorially correct ones.",
     ["inputs", "configurations"], "for all hypernodes, node counts, numbers of dofs per node and vector contents",
     "The test suite that builds here never touches dof numbering; errors are visible only for particular node and dof positions.",
     ["include/HyperHDG/hypernodefactory.hxx", "include/HyperHDG/hypercube.hxx"],
     ["include/HyperHDG/hypernodefactory.hxx: get_dof_indices, get_dof_values, add_to_dof_values, set_dof_values",
      "include/HyperHDG/hypercube.hxx: n_faces, n_vertices, pow, lookup tables"],
     ["index arrays, global vector before and after"])

prop("P07", "Hypergraph iteration visits each hyperedge once with consistent parts",
     "Iterating over a hypergraph visits every hyperedge exactly once in index order, and the topology, geometry, node "
     "descriptor and stored data handed out for a hyperedge all belong to that hyperedge; data stored for one hyperedge persists "
     "and never leaks to another one. In debug builds, accessing a hyperedge outside the range or building a hypergraph without "
     "hyperedges or with fewer than two hypernodes aborts.",
     ["inputs", "histories", "configurations"], "for all hypergraphs, iteration patterns and sequences of data accesses",
     "The tests that build here never construct a hypergraph.",
     ["include/HyperHDG/hdg_hypergraph.hxx", "include/HyperHDG/hy_data_container.hxx"],
     ["include/HyperHDG/hdg_hypergraph.hxx: iterator, operator[], hyEdge_*", "include/HyperHDG/hy_data_container.hxx: get_hyEdge"],
     ["sequence of dereferenced hyperedges, container contents"])

prop("P08", "Changing the refinement keeps all parts of a hypergraph in step",
     "After constructing a hypergraph or setting its refinement level, topology, geometry, node descriptor, dof numbering and "
     "per-hyperedge data all report the counts belonging to the new level, and the reported refinement is the one last requested. "
     "This holds after any sequence of refinement changes and equals the state of a freshly built hypergraph at that level.",
     ["histories", "configurations"], "for all sequences of refinement requests, finer or coarser",
     "The tests that build here never refine a hypergraph.",
     ["include/HyperHDG/hdg_hypergraph.hxx", "include/HyperHDG/hypernodefactory.hxx", "include/HyperHDG/hy_data_container.hxx"],
     ["include/HyperHDG/hdg_hypergraph.hxx: set_refinement, get_refinement, constructors"],
     ["counts and refinement reported afterwards"])

prop("P09", "Cubic hypergraphs: topology, geometry and node types describe the same grid",
     "On a cubic hypergraph of any size and refinement, every hyperedge is exactly one cell of the refined grid and no cell occurs "
     "twice or is missing. Two faces have the same hypernode if and only if they are the same face in space, hypernodes are numbered "
     "without gaps, and the type of a face states exactly on which sides of the unit cube it lies (zero in the interior and on faces inside a "
     "coarse hyperedge). This holds for any order of refining, copying and constructing the three objects from one another.",
     ["inputs", "histories", "configurations"], "for all grid sizes, dimensions, refinements and orders of construction and refinement",
     "The test suite that builds here never constructs a cubic hypergraph; the three classes only agree or disagree as a whole, for particular "
     "sizes and refinements.",
     ["include/HyperHDG/topology/cubic.hxx", "include/HyperHDG/geometry/unit_cube.hxx", "include/HyperHDG/node_descriptor/cubic.hxx",
      "include/HyperHDG/wrapper/tpcc.hxx"],
     ["include/HyperHDG/topology/cubic.hxx: hyEdge, set_refinement", "include/HyperHDG/geometry/unit_cube.hxx: hyEdge, adapt_data",
      "include/HyperHDG/node_descriptor/cubic.hxx: hyEdge", "include/HyperHDG/wrapper/tpcc.hxx"],
     ["hypernode indices, mapped points, types, counts"])

prop("P10", "Matrix-free operators are the sum of scattered local contributions",
     "Applying a global operator (trace-to-flux, residual-flux, or the mass variant) to a vector yields exactly the sum over all "
     "hyperedges of the local operator applied to the gathered local values, scattered back to the dofs of the hyperedge's "
     "hypernodes. The input vector and the hyperedges' stored data are not changed, the result has the global size, and nothing "
     "from earlier calls or other hyperedges influences it.",
     ["inputs", "histories", "configurations"],
     "for all hypergraph connectivities, input vectors, local solvers and preceding call sequences",
     "The loops are templates no buildable test instantiates; a stale buffer or wrong index needs a particular connectivity.",
     GLS, ["include/HyperHDG/global_loop/*.hxx: trace_to_flux, residual_flux, trace_to_mass_flux"],
     ["returned global vector, arguments seen by the local solver"])

prop("P11", "The assembled sparse matrix represents the matrix-free operator",
     "Summing up the entries of the assembled row, column and value triplets gives exactly the matrix of the corresponding "
     "matrix-free operator (before prescribed Dirichlet dofs are zeroed), i.e. the sum over hyperedges of the scattered local matrices. The three arrays have equal lengths, all "
     "indices are valid global dofs, and assembling twice gives the same result.",
     ["inputs", "configurations", "histories"], "for all hypergraph connectivities, dof counts and local solvers",
     "No buildable test assembles a matrix.", [GL + "elliptic.hxx", GL + "mass_approx_eigenvalue.hxx", GL + "shifted_inverse_eigenvalue.hxx",
                                            GL + "parabolic.hxx", GL + "nonlinear_eigenvalue.hxx"],
     ["include/HyperHDG/global_loop/*.hxx: trace_to_flux_mat, trace_to_mass_flux_mat"],
     ["returned row, column and value arrays"])

prop("P12", "Prescribed Dirichlet dofs are exactly the declared ones and are zeroed",
     "The list of Dirichlet dofs reported for a hypergraph contains each dof of each hypernode of Dirichlet type exactly once, "
     "sorted, no other dof, and belongs to the current hypergraph whatever was asked before. Dofs a user prescribes are stored "
     "without repetition, an out-of-range prescription aborts in debug builds, and the operator result is zero at exactly the "
     "prescribed dofs and unchanged elsewhere.",
     ["inputs", "histories", "configurations"], "for all hypergraphs, node types, index lists and call sequences",
     "No buildable test prescribes Dirichlet dofs.", GLS[:1] + GLS[3:],
     ["include/HyperHDG/global_loop/elliptic.hxx: read_dirichlet_indices", "include/HyperHDG/global_loop/mass_approx_eigenvalue.hxx: dirichlet_indices"],
     ["returned index list, operator result"])

prop("P13", "Times, eigenvalues, initial values and stored data reach the local solvers",
     "The time or eigenvalue a user passes to a global operator reaches every local evaluation unchanged. Initial values are "
     "computed for every hypernode from the hyperedges that touch it, and data stored by one step is computed from exactly the "
     "dof values passed in and is what the next step reads.",
     ["inputs", "histories", "configurations"], "for all hypergraphs, times, eigenvalues, dof vectors and step sequences",
     "No buildable test runs a time step or an eigenvalue iteration.", GLS,
     ["include/HyperHDG/global_loop/parabolic.hxx: make_initial, set_data", "include/HyperHDG/global_loop/nonlinear_eigenvalue.hxx: jacobian_of_trace_to_flux"],
     ["arguments seen by the local solver, returned vector, hyperedge data"])

prop("P14", "Global errors aggregate the local errors of all hyperedges",
     "The reported global error combines the local error contributions of every hyperedge exactly once, in the documented norm, "
     "evaluated for the dof values and the time or eigenvalue that were passed in. Neither the dof vector nor the order of "
     "hyperedges nor earlier calls influence anything else.",
     ["inputs", "histories", "configurations"], "for all hypergraphs, dof vectors, local errors and times",
     "No buildable test evaluates an error.", GLS, ["include/HyperHDG/global_loop/*.hxx: errors"],
     ["returned error vector"])

prop("P15", "Domain files are read faithfully and malformed ones are refused",
     "Reading a domain description file puts every number of the file into the table entry it belongs to: space dimension, counts, "
     "hypernodes, hypernode types and points of each hyperedge, and point coordinates, independent of comments, blank space and line "
     "layout the format allows. In debug builds a file that is missing, has the wrong suffix or dimension, lacks a keyword, a "
     "count or a table row, or refers to nonexistent or repeated entities aborts instead of yielding a domain.",
     ["inputs", "fault_sequences"], "for all file contents (coordinates, indices, layouts and single malformations)",
     "The test suite that builds here reads no domain file; a wrong table position or a missing check shows up only for particular files.",
     ["include/HyperHDG/read_domain.hxx", "include/HyperHDG/hy_assert.hxx"],
     ["include/HyperHDG/read_domain.hxx: read_domain_geo, read_domain, DomainInfo::check_*"],
     ["returned DomainInfo, abort"])

prop("P16", "Point clouds become the epsilon-neighbourhood graph of their points",
     "Converting a point cloud file yields a domain with exactly the points of the file, coordinates unaltered, in which two points "
     "are joined by exactly one hyperedge if and only if their Euclidean distance is smaller than epsilon; the end points of a "
     "hyperedge are the hypernodes and points of that hyperedge. In debug builds a malformed file, repeated points or a graph that "
     "is not connected aborts.",
     ["inputs"], "for all point clouds, dimensions, coordinates and values of epsilon",
     "The test suite that builds here converts no point cloud; off-by-one pairs need particular distances.",
     ["include/HyperHDG/epsilon_neighborhood_graph.hxx", "include/HyperHDG/read_domain.hxx"],
     ["include/HyperHDG/epsilon_neighborhood_graph.hxx: make_epsilon_neighborhood_graph, is_valid, read_domain"],
     ["returned DomainInfo, written graph file, abort"])

prop("P17", "Affine mappings map points, invert, and orient normals consistently",
     "The linear mapping of a hyperedge sends a reference point p to A p + t for the matrix A and translation t it was built from, "
     "and its inverse solves that equation. The functional determinants are the volumes of the hyperedge and of its faces, local "
     "normals have unit length, are orthogonal to their face and point outwards, and inner and outer normals form an orthonormal "
     "frame of the tangent space and its complement; in debug builds an index outside its range aborts.",
     ["inputs", "configurations"], "for all matrices, translations, points, face indices and dimensions",
     "The test suite that builds here never maps a point.",
     ["include/HyperHDG/mapping/linear.hxx", D, L],
     ["include/HyperHDG/mapping/linear.hxx: map_reference_to_physical, map_physical_to_reference, functional_determinant_*, *_normal"],
     ["returned points, determinants and normals"])

prop("P18", "Hyperedge geometries map the reference cell onto the right piece of the domain",
     "The geometry of a hyperedge (unit cube or domain file, any refinement) maps reference points affinely onto its cell: the coarse "
     "hyperedge given by its points is cut into equal cells, and spanning vectors, face barycenters, plot points of the cell and of its "
     "boundaries, areas and face areas, the QR factors, outer normals and hyperedge properties all belong to that cell. Normals of faces "
     "have unit length and point outwards.",
     ["inputs", "configurations"], "for all points of the domain, reference points, grid sizes, refinements and hyperedges",
     "The test suite that builds here never constructs a geometry.",
     ["include/HyperHDG/geometry/unit_cube.hxx", "include/HyperHDG/geometry/file.hxx", "include/HyperHDG/mapping/linear.hxx"],
     ["include/HyperHDG/geometry/unit_cube.hxx: hyEdge", "include/HyperHDG/geometry/file.hxx: hyEdge, get_hyEdge"],
     ["returned points, vectors, areas, normals, extra data"])

prop("P19", "Hypergraphs from domain files keep connectivity and types under refinement",
     "A hypergraph read from a domain file and refined r times per direction has the coarse number of hyperedges times r^dim. Two faces "
     "of refined hyperedges have the same hypernode if and only if they are the same piece of the same coarse hypernode or the same "
     "interior face of one coarse hyperedge; hypernodes are numbered without gaps. The type of a face is that of the coarse face "
     "it lies on, and zero inside. This holds for any order of refining, copying and constructing; in debug builds an index past the "
     "last hyperedge aborts.",
     ["inputs", "histories", "configurations"], "for all domain files, refinements and orders of construction and refinement",
     "The test suite that builds here never reads a domain file.",
     ["include/HyperHDG/topology/file.hxx", "include/HyperHDG/node_descriptor/file.hxx", "include/HyperHDG/wrapper/tpcc.hxx"],
     ["include/HyperHDG/topology/file.hxx: hyEdge, set_refinement", "include/HyperHDG/node_descriptor/file.hxx: hyEdge, copy constructor"],
     ["hypernode indices, types, counts"])

prop("P20", "Conjugate gradients returns a converged iterate or throws",
     "The conjugate gradient solver, started at zero, returns the iterate of the conjugate gradient recurrence for the given "
     "operator and right-hand side as soon as the residual norm is below the tolerance, never before, and throws if this does not happen "
     "within the allowed number of iterations. The operator is applied only as often as that needs, the right-hand side is "
     "unchanged, and the large-vector helpers (inner product, norm, linear combinations) compute their definitions even if operands coincide.",
     ["inputs", "histories"], "for all operators, right-hand sides, tolerances and iteration limits",
     "The test suite that builds here never solves a sparse system.",
     ["include/HyperHDG/sparse_la.hxx"],
     ["include/HyperHDG/sparse_la.hxx: conjugate_gradient, inner_product, norm_2, linear_combination"],
     ["returned vector, exception, operator applications"])

prop("P21", "A plot is a consistent VTU file of the whole hypergraph and its values",
     "Every plot is a well-formed VTU file: the declared numbers of points, cells and components are the lengths of the arrays, cells "
     "refer to their own points with cumulative offsets and the type of their dimension. The points are those of the hyperedges (and, "
     "if chosen, of their boundaries) in the requested scaling; the values at the points of a hyperedge are what the local solver "
     "returns for the dof values of that hyperedge, that time and those points, padded with zeros to the declared number of components.",
     ["inputs", "configurations"], "for all hypergraphs, dof vectors, times, plot options and local solvers",
     "No buildable test writes a plot; an array that is too short or values of another hyperedge need particular dimensions or options.",
     ["include/HyperHDG/plot.hxx", "include/HyperHDG/hdg_hypergraph.hxx", "include/HyperHDG/hypercube.hxx"],
     ["include/HyperHDG/plot.hxx: plot, plot_vtu, plot_vtu_unstructured_geometry, plot_edge_values, plot_boundary_values"],
     ["written file"])

prop("P22", "Setting a plot option changes exactly that option and reports it",
     "Setting a plot option by name stores the given value in that option and in no other one, and returns the value that is now "
     "stored; an empty value only queries. Switches are on for true and 1 and off for anything else, a returned value can be "
     "set again without changing anything, and in debug builds unknown options and file types abort.",
     ["inputs", "histories"], "for all options, values and earlier settings",
     "No buildable test sets a plot option.",
     ["include/HyperHDG/plot.hxx"], ["include/HyperHDG/plot.hxx: set_plot_option, PlotOptions"],
     ["PlotOptions members, returned text, abort"])

prop("P23", "Plots go to the file the options name, and numbering never loses a plot",
     "A plot is written to directory/name.number.vtu (without the number if it is switched off), the directory is created if needed, and "
     "no other file is touched. The number is incremented after each plot if so chosen, so that successive plots go to different "
     "files and earlier ones stay intact; otherwise the file is replaced as a whole. Every global loop plots the vector and time it is "
     "given with its own options, independent of other loops.",
     ["histories", "inputs"], "for all directory and file names, numbers, options and sequences of plots",
     "No buildable test writes a plot.",
     ["include/HyperHDG/plot.hxx"] + GLS,
     ["include/HyperHDG/plot.hxx: plot, PlotFunctions::open_ofstream", "include/HyperHDG/global_loop/*.hxx: plot_option, plot_solution"],
     ["files written, file number"])

PYI = ["import/HyperHDG/import_cxx/include.py", "import/HyperHDG/import_cxx/compile_prep.py", "import/HyperHDG/import_cxx/names.py",
       "import/HyperHDG/import_cxx/config.py", "import/HyperHDG/import_cxx/cpp.py", "import/HyperHDG/import_cxx/cmake.py"]
prop("P26", "The just-in-time import never returns an outdated or foreign module",
     "HyperHDG.include(conf) returns the class of a module built for exactly this configuration. It recompiles whenever the shared object "
     "is missing or older than any header it depends on (the headers defining the chosen classes, the listed include files, and everything "
     "they include from HyperHDG, transitively and through cycles), the binding templates, the import scripts, the CMake settings or "
     "Python.h; otherwise it reuses the module. Configurations that differ in any field have different modules. A failing translation, "
     "compilation or link raises instead of importing what is there, own C++ code is on disk before it is compiled, and a build directory "
     "of another Python version is refused.",
     ["histories", "crash points", "inputs"], "for all states and time orders of the files, exit codes and configurations",
     "The buildable tests do not run Python; a missed dependency only shows when exactly that file is newer than the module.",
     PYI, ["import/HyperHDG/import_cxx/compile_prep.py: need_compile, need_compile_check_hy_files, own_code",
           "import/HyperHDG/import_cxx/names.py: files", "import/HyperHDG/import_cxx/include.py: include"],
     ["commands run, files written, module imported, exceptions"])

prop("P27", "The generated module is the one the configuration describes",
     "The sources and commands generated for a configuration are those of its global loop's templates with every hole filled: the C++ "
     "class is GlobalLoop<Topology, Geometry, NodeDescriptor, LocalSolver> as given, the headers are those defining these classes plus the "
     "given ones plus the own code last, types are the given replacements or the defaults, names agree between the files and the "
     "module. Assertions are compiled out exactly if debug_mode is off; commands use the CMake settings and these files. "
     "Earlier imports, or changing and reusing a configuration object, do not influence later ones; incomplete or mistyped configurations "
     "are refused before anything is written or run.",
     ["inputs", "histories"], "for all configurations and sequences of imports",
     "The buildable tests do not run Python.",
     PYI + ["cython/elliptic.pyx", "cython/elliptic.pxd", "cython/parabolic.pxd"],
     ["import/HyperHDG/import_cxx/include.py: include", "import/HyperHDG/import_cxx/config.py: extract_includes, generate_cy_replace, consistent",
      "import/HyperHDG/import_cxx/cpp.py: find_definition, extract_classname"],
     ["generated .pyx and .pxd files, commands"])

prop("P28", "Python methods forward to the C++ members of the same name",
     "Each method of a Python wrapper calls the C++ member of the same name of its own object exactly once, with its own arguments in "
     "order (texts encoded, time zero if omitted), and returns the result (texts decoded); refine sets or reports the refinement, "
     "sparse_stiff_mat returns columns, rows and values of one assembled matrix. Constructors pass topology, geometry and local solver "
     "data to the C++ constructor with these parameters, keep the object, and delete it once; no wrapper exists without C++ object. "
     "Declarations agree with the C++ classes and number types follow the configuration.",
     ["inputs", "configurations"], "for all global loops, methods, argument values and omitted arguments",
     "The buildable tests do not run Python.",
     ["cython/%s.%s" % (l, e) for l in ("elliptic", "parabolic", "nonlinear_eigenvalue", "mass_approx_eigenvalue", "shifted_inverse_eigenvalue")
      for e in ("pyx", "pxd", "cfg")],
     ["cython/*.pyx: __cinit__ and all methods", "cython/*.pxd: CythonClassName"],
     ["C++ calls made, values returned"])

LS = ["include/HyperHDG/local_solver/" + f + ".hxx" for f in
      ("diffusion_uniform_ldgh", "diffusion_ldgh", "diffusion_eigs_ldgh", "diffusion_parab_ldgh", "diffusion_ip", "diffusion_ldgh_pp",
       "diffusion_advection_reaction_ldg", "bilaplacian_uniform_ldgh", "bilaplacian_ldgh", "bilaplacian_eigs_ldgh", "bilaplacian_parab_ldgh",
       "timoshenko_network", "advection_parab_ldgh")]
prop("P24", "A local solver never returns results of a singular local problem",
     "If the local problem of a hyperedge cannot be solved, every function of a local solver that needs its solution (fluxes, residuals, "
     "bulk values, errors, initial values, time steps) throws an exception instead of returning numbers. Which hypernodes count as "
     "Dirichlet nodes is decided by their types and the parameters alone, and the element errors start at zero, are summed entrywise and are "
     "turned into norms by the square root.",
     ["inputs", "configurations"], "for all local problems, element geometries, node types and error values",
     "Local solvers do not even compile in the tests that build here; a swallowed solver failure needs a singular local problem to show.",
     LS, ["include/HyperHDG/local_solver/*.hxx: solve_local_problem, node_types, error_def"],
     ["exceptions, node types, accumulated errors"])

prop("P25", "Local solvers return the flux of their discrete local problem",
     "For every hyperedge and all trace unknowns, trace_to_flux is the numerical flux of the discontinuous Galerkin (or interior "
     "penalty, or beam) solution of the local problem with these traces and zero data; residual_flux is the one with the sources and "
     "boundary data of the problem at that time; mass and Jacobian fluxes are the corresponding derivatives of the local problem; and time "
     "steps and initial values of the diffusion solver belong to the theta scheme. Coefficients, geometry and stabilisation of this "
     "hyperedge enter with their values at the right point and time, Dirichlet hypernodes contribute no flux, and traces and hyperedge are unchanged.",
     ["inputs", "configurations"], "for all trace values, geometries, coefficients, node types, stabilisations, polynomial degrees and times",
     "Local solvers do not even compile in the tests that build here; a missing factor, face or time argument is only visible for "
     "particular dimensions, data or node types, and may leave the method convergent.",
     LS, ["include/HyperHDG/local_solver/*.hxx: assemble_loc_matrix, assemble_rhs_*, primal_at_boundary, dual_at_boundary, trace_to_flux, residual_flux, "
          "trace_to_mass_flux, jacobian_of_trace_to_flux"],
     ["the flux vectors returned for a hyperedge"])

prop("P29", "Bulk values, errors and initial data belong to the local solution",
     "bulk_values evaluates the local solution (dual and primal unknowns) belonging to the given traces at the requested points of the hyperedge, in order; "
     "errors is the squared L2 distance of the primal solution to the analytic result at that time; initial traces are the "
     "projections of the initial data to the faces (zero on Dirichlet hypernodes); and time-dependent solvers store and use exactly the solution of the "
     "previous step of this hyperedge.",
     ["inputs", "histories"], "for all trace values, geometries, coefficients, points, polynomial degrees and times",
     "Local solvers do not even compile in the tests that build here.",
     LS, ["include/HyperHDG/local_solver/*.hxx: bulk_values, errors, make_initial, set_data"],
     ["returned values, initial traces, hyperedge data"])

prop("P33", "Shipped problems with a known solution are consistent",
     "For every TestParameters class of reproducibles_python/parameters with a known solution (diffusion, bilaplacian, "
     "diffusion-advection-reaction, advection; elliptic and parabolic; full-dimensional and on hypergraphs of any hyperedge dimension), the right-hand side is "
     "the differential operator of the equation applied to the analytic result at every point and time, boundary and initial values are the analytic "
     "result at that point and time (for the bilaplacian also its scaled negative Laplacian), coefficient and inverse coefficient are reciprocal, and "
     "all boundary node types of the cube are prescribed as the problem needs; eigenvalue problems have no source and homogeneous boundary values.",
     ["inputs", "configurations"], "for all points, times, space and hyperedge dimensions up to three",
     "Convergence studies that use these classes are not among the tests that run; an inconsistent datum only shows as a stalled convergence rate.",
     ["reproducibles_python/parameters/diffusion.hxx", "reproducibles_python/parameters/bilaplacian.hxx",
      "reproducibles_python/parameters/diffusion_advection_reaction.hxx", "reproducibles_python/parameters/advection.hxx"],
     ["reproducibles_python/parameters/*.hxx"], ["values of the parameter functions"])

prop("P34", "Global loops and plots compute with the functions of the shipped local solvers",
     "For every shipped local solver and every global loop it is meant for (elliptic, parabolic, mass-approximated, nonlinear and shifted-inverse "
     "eigenvalue problems), each operator of the loop (trace_to_flux and its matrix, residual_flux, trace_to_mass_flux, "
     "jacobian_of_trace_to_flux, make_initial, set_data, errors) on any vector and time is the sum over the hyperedges of what the local solver "
     "itself computes for that hyperedge from the values at its nodes, and plot_solution writes the solver's bulk values. In particular the compile-time "
     "choice of a solver function by its signature finds the function; no operator silently falls back to doing nothing in a release build.",
     ["inputs", "configurations"], "for all vectors, times, geometries, node types and parameters, over all pairs of local solver and global loop",
     "No test instantiates a global loop with a shipped local solver, and a signature that no longer matches compiles without a warning.",
     GLS + LS + ["include/HyperHDG/compile_time_tricks.hxx", "include/HyperHDG/plot.hxx"],
     ["include/HyperHDG/global_loop/*.hxx", "include/HyperHDG/local_solver/*.hxx", "include/HyperHDG/compile_time_tricks.hxx: HAS_MEMBER_FUNCTION"],
     ["returned vectors, matrix entries, errors and plotted values"])

prop("P35", "Shipped scripts, notebooks and drivers are valid clients of the library",
     "Every configuration that a shipped Python script, notebook or C++ driver (reproducibles_python, jupyter, tests_python, examples, tests_c++) hands to "
     "the library, over all dimensions and degrees its own loops run through, names existing classes and parameter structs and is an instance that "
     "compiles in debug and in release mode with the generated binding; every method it calls on the resulting class exists with these "
     "arguments, and every plot option it sets exists. Every shipped domain file is complete and consistent (as many lines and numbers as "
     "declared, existing and distinct hypernodes and points, a hypernode is Dirichlet for all of its hyperedges or for none), and a program that names one "
     "is configured for the dimensions it declares.",
     ["configurations"], "for all configurations reachable in the shipped programs",
     "Only one C++ test and none of the scripts is run here; templates are not type-checked before they are instantiated.",
     ["reproducibles_python/" + f + ".py" for f in ("diffusion_convergence_elliptic", "diffusion_convergence_parabolic", "bilaplacian_convergence_eigenvalue_comb",
                                                    "advection_hypergraph", "timoshenko_convergence_cross", "fiber_network_elastic")] +
     ["jupyter/diffusion_elliptic.ipynb", "examples/diffusion_elliptic.cxx", "domains/cross.geo", "domains/leVeque_hg.geo", "domains/aggregate_5.pts"] + GLS + LS +
     ["include/HyperHDG/%s/%s.hxx" % x for x in (("topology", "cubic"), ("topology", "file"), ("geometry", "unit_cube"), ("geometry", "file"),
                                                 ("node_descriptor", "cubic"), ("node_descriptor", "file"))] +
     ["cython/%s.pyx" % x for x in ("elliptic", "parabolic", "mass_approx_eigenvalue", "nonlinear_eigenvalue", "shifted_inverse_eigenvalue")],
     ["reproducibles_python/*.py", "include/HyperHDG/local_solver/*.hxx", "include/HyperHDG/global_loop/*.hxx", "cython/*.pyx"],
     ["whether the configured class can be built and offers the called methods"])

prop("P36", "Assertions check and never change what a program computes",
     "In debug builds an assertion (hy_assert) evaluates its condition exactly once and ends the program if and only if the condition is false. With NDEBUG "
     "neither its condition nor its message is evaluated and nothing ends the program. No assertion of the library has a side effect, in its condition, in "
     "its message or in the functions they call, so a program in which no assertion fails computes the same with and without assertions.",
     ["inputs", "configurations"], "for all assertions of the library and all values of their operands, in both build modes",
     "The test is compiled in one mode only and touches a handful of the assertions.",
     ["include/HyperHDG/" + f for f in ("hy_assert.hxx", "read_domain.hxx", "epsilon_neighborhood_graph.hxx", "hypernodefactory.hxx", "hdg_hypergraph.hxx",
                                        "dense_la.hxx", "sparse_la.hxx", "hypercube.hxx", "plot.hxx", "hy_data_container.hxx")] + GLS + LS,
     ["include/HyperHDG/hy_assert.hxx: hy_assert, __Hy_Assert", "include/HyperHDG/**/*.hxx: all calls of hy_assert"],
     ["whether the program ends, values after an assertion, in debug and release builds"])

prop("P30", "Discrete solutions converge at the documented rates",
     "Refining the mesh or raising the degree lets the discrete solution converge to the analytic one with the documented order, and the methods are "
     "stable for all admissible stabilisations.",
     ["inputs"], "for all smooth data and mesh sequences", "Tests sample a few meshes.",
     LS, ["include/HyperHDG/local_solver/*.hxx"], ["errors under refinement"])

prop("P31", "Floating-point results are accurate",
     "The computed traces, fluxes, normals and determinants agree with exact arithmetic up to a modest multiple of the unit roundoff times the condition of "
     "the problem, for float and double.",
     ["inputs"], "for all data", "Tests sample a few values.",
     [D, L, "include/HyperHDG/sparse_la.hxx"], ["include/HyperHDG/dense_la.hxx", "include/HyperHDG/sparse_la.hxx"], ["rounded results"])

prop("P32", "Work and memory are linear in the number of hyperedges",
     "Applying a global operator costs time and memory proportional to the number of hyperedges, independent of their order.",
     ["configurations"], "for all hypergraphs", "Tests use tiny hypergraphs.",
     GLS, ["include/HyperHDG/global_loop/*.hxx: trace_to_flux"], ["run time, memory"])

NA = {
    "P30": "Convergence and stability are statements about limits over mesh sequences and Sobolev norms of arbitrary data; no static analysis of this source "
           "can derive them. What the code must compute on each hyperedge for the theory to apply is decided as P25 and P29.",
    "P31": "The value domain reads floating point as real arithmetic; error bounds depend on condition numbers of run-time data, for which no "
           "static bound in reach would be useful.",
    "P32": "Run time and memory are run-time quantities of the compiled program (allocator, LAPACK, cache); a static cost analysis of the "
           "instantiated templates is out of reach here.",
}
