"""Source of properties.jsonl and MANIFEST.json (python3 props.py rewrites both)."""
import json, os

TESTS = "The only test that is stable here evaluates a few fixed points of one-dimensional functions; "
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, text=text,
                      why=" ".join((TESTS + why).split()), files=["include/HyperHDG/" + f if not f.startswith("@") else f[1:] for f in files],
                      mech=mech, technique=technique, note=" ".join(note.split())))


RV = "runtime oracle on real executions under ASan/UBSan, release and debug builds"

prop("P01", "Fixed-size dense algebra computes exactly the documented operation",
     """Every operation of the small dense matrix and vector type (construction, conversion, element and column access,
     comparison, printing, entrywise, scalar, broadcasting, matrix, dyadic, cross, transposed and diagonal products, scalar
     products, norms) returns the entrywise result of its documented mathematical definition for every shape and scalar type,
     up to rounding of that type. Constant operands are never modified, compound assignments work when operands alias and
     return the object itself, and any division by an exact zero throws the documented exception while no other division throws.""",
     ["inputs", "configurations"], "all matrix entries (zeros, huge, tiny), shapes from 1x1 to rectangular, float / double / integer entries, aliasing operands",
     "no test compares these operations with their definition for arbitrary entries and shapes.",
     ["dense_la.hxx"], [{"name": "SmallMat and free operators", "where": "include/HyperHDG/dense_la.hxx"}],
     RV + ": entrywise recomputation from raw storage in extended precision",
     "Random shapes and entries; the oracle recomputes every entry in extended precision. Shapes are a fixed list of template instances.")
prop("P02", "Dense linear systems are solved accurately or refused with an exception",
     """Solving a dense linear system with a regular matrix and any number of right-hand sides, in single or double precision,
     returns a solution whose residual is at rounding level, including when pivoting is needed. An exactly singular matrix makes
     the solver throw its documented exception instead of returning numbers, constant operands stay unmodified, and no memory
     is leaked on either path.""",
     ["inputs", "configurations"], "all matrices and right-hand sides, all sizes and both precisions, regular and exactly singular",
     "no test solves a dense system.", ["dense_la.hxx", "wrapper/lapack.hxx"],
     [{"name": "operator/ and lapack_solve", "where": "include/HyperHDG/wrapper/lapack.hxx"}],
     RV + ": backward-error monitor, exception monitor, allocation monitor",
     "Backward error of each returned solution is evaluated in extended precision; singular cases use matrices whose elimination is exact.")
prop("P03", "QR decompositions and determinants are mathematically correct and normalised",
     """QR decompositions return an orthogonal Q and an upper triangular R with QR equal to the input for square, tall and wide
     matrices; the normalised variant additionally has det(Q) = +1, non-negative diagonal entries of R except possibly the first,
     and a reduced R equal to the leading block of R. The determinant of a square matrix is the signed determinant, that of a tall
     matrix has the absolute value sqrt(det(A^T A)), and constant inputs are never modified.""",
     ["inputs", "configurations"], "all matrices including triangular, permuted, rank deficient and scaled ones, several shapes, both precisions",
     "no test evaluates a decomposition or determinant.", ["dense_la.hxx", "wrapper/lapack.hxx"],
     [{"name": "qr_decomp, qr_decomp_q, determinant", "where": "include/HyperHDG/dense_la.hxx"}],
     RV + ": defect of orthogonality, product, triangularity and determinant recomputed in extended precision",
     "Determinants are recomputed by pivoted elimination in extended precision.")
prop("P04", "Conjugate gradients returns a solution within tolerance or throws",
     """For every right-hand side, the conjugate gradient solver either returns a vector whose residual meets the requested absolute
     tolerance in the Euclidean norm or throws its documented exception; it applies the operator at most as often as the iteration
     limit (the system size by default), converges whenever the exact method would within the limit, and answers a right-hand side
     below the tolerance with zero without applying the operator. The right-hand side is never modified. Inner products, norms and
     linear combinations of long vectors equal their definitions, also when the result aliases an operand.""",
     ["inputs", "configurations"], "all symmetric positive definite operators, right-hand sides, tolerances, iteration limits and hostile (indefinite, singular, NaN) operators",
     "no test calls the iterative solver.", ["sparse_la.hxx"],
     [{"name": "conjugate_gradient, inner_product, linear_combination", "where": "include/HyperHDG/sparse_la.hxx"}],
     RV + ": counting operator and reference recurrence in extended precision",
     "Operators have at most six distinct eigenvalues so that the reference recurrence predicts the iteration count robustly.")
prop("P05", "Degrees of freedom are numbered bijectively; gather and scatter hit exactly them",
     """Each pair of hypernode and local number owns exactly one global index, the indices of a hypernode are contiguous, together they
     fill the range of global unknowns exactly, and the owner of an index is recovered from it, also for numbers of unknowns beyond
     the node index type if a wider index type is requested. Reading, adding, setting and filling the values of one hypernode touch
     exactly the entries of that hypernode, with exactly the given values, whatever the history of operations.""",
     ["inputs", "histories", "configurations"], "all numbers of nodes and unknowns per node, index and vector types, and histories of gather / scatter operations",
     "no test exercises the numbering.", ["hypernodefactory.hxx"],
     [{"name": "HyperNodeFactory", "where": "include/HyperHDG/hypernodefactory.hxx"}],
     RV + ": access-recording vectors and model-based histories",
     "Histories of 12 operations per case on recording vectors that report every index accessed.")
prop("P06", "A hypergraph is a consistent container of hyperedges with isolated data",
     """Iterating over a hypergraph (forwards, backwards, by range or algorithm) visits every hyperedge exactly once in index order, and
     the topology, geometry, node description and data obtained for an index always belong to that hyperedge and to the current
     refinement, no matter which access path or constructor is used. Data written for one hyperedge persist and are never seen by
     another hyperedge or another hypergraph; changing the refinement updates all parts and counts together and starts with fresh data.""",
     ["histories", "configurations"], "all histories of iteration, random access, data writes and refinement changes over all constructors and index types",
     "no test builds a hypergraph.", ["hdg_hypergraph.hxx", "hy_data_container.hxx"],
     [{"name": "HDGHyperGraph, HyDataContainer", "where": "include/HyperHDG/hdg_hypergraph.hxx"}],
     RV + ": model-based histories on recording parts",
     "Topology, geometry and node description are recording stand-ins so that any mix-up of indices or levels is visible.")
prop("P07", "Domain files are read completely and exactly, malformed ones are stopped",
     """Reading a well-formed domain file yields exactly the numbers, coordinates, hypernodes, face types, vertices and properties written in
     it, for every dimension, formatting, amount of comments and index or coordinate type, and leaves the file unchanged. A debug build
     stops on files that are missing, have a foreign ending, wrong dimensions, missing or truncated sections, zero counts, invalid or
     duplicate indices or duplicate points; the consistency check recognises each such damage in any build.""",
     ["inputs", "configurations"], "all well-formed domain files and all single damages of them", "no test reads a domain file.",
     ["read_domain.hxx"], [{"name": "read_domain, read_domain_geo, DomainInfo::check_consistency", "where": "include/HyperHDG/read_domain.hxx"}],
     RV + ": generated files read back field by field, fork-based death monitor for damaged files",
     "Files come from a generator with random layout; shipped files are compared with an independent parser.")
prop("P08", "Point clouds become exactly their epsilon-neighbourhood graph",
     """From a point-cloud file the library produces a graph whose points are exactly the given ones (to full precision, in any input order)
     and whose edges are exactly the pairs closer than epsilon, each once and without loops, and reading the cloud directly gives the same
     graph. Debug builds stop on clouds that are empty, duplicated, disconnected, of the wrong dimension or without positive epsilon.""",
     ["inputs"], "all finite point clouds in one to three dimensions, orders of points, epsilons including exact ties",
     "no test reads a point cloud.", ["epsilon_neighborhood_graph.hxx", "read_domain.hxx"],
     [{"name": "make_epsilon_neighborhood_graph", "where": "include/HyperHDG/epsilon_neighborhood_graph.hxx"}],
     RV + ": brute-force neighbourhood graph against independently parsed output",
     "Clouds of up to 45 points; distances within rounding of epsilon are skipped unless the tie is exact.")
prop("P09", "Cubic grids: hyperedges tile the grid; faces share a node iff they coincide",
     """The hyperedges of a cubic hypergraph (of dimension one to three, embedded in up to three dimensions, with any number of elements per
     direction and any refinement) are exactly the cells of the corresponding grid of the unit cube, each exactly once. Two faces have
     the same hypernode if and only if they coincide geometrically and belong to the same coarse face or hyperedge, node indices fill
     exactly the range of hypernodes, and all reported numbers of hyperedges and hypernodes are right, also after any sequence of refinement changes and for copies.""",
     ["inputs", "histories", "configurations"], "all dimensions, element numbers, refinements, histories of refinement changes and copies",
     "no test builds a grid.", ["topology/cubic.hxx", "geometry/unit_cube.hxx", "wrapper/tpcc.hxx", "hypercube.hxx"],
     [{"name": "Topology::Cubic with Geometry::UnitCube", "where": "include/HyperHDG/topology/cubic.hxx"}],
     RV + ": recorded grids compared with a lattice model of cells and faces",
     "The submodule TPCC is not available offline; a stand-in written from its documentation takes its place.")
prop("P10", "Grids from files keep their connectivity under every refinement",
     """A hypergraph read from a file connects hyperedges exactly as the file says; with refinement n every hyperedge becomes n^d sub-cells which tile
     it, sub-faces on the coarse boundary are shared exactly by the hyperedges sharing the coarse hypernode, interior sub-faces by exactly
     the two adjacent sub-cells, and all numbers of hyperedges and hypernodes are right. Refinements can be changed repeatedly and copies are independent.""",
     ["inputs", "histories", "configurations"], "all domain files, refinements, histories of refinement changes, copies",
     "no test reads a domain file.", ["topology/file.hxx", "geometry/file.hxx", "wrapper/tpcc.hxx", "hypercube.hxx"],
     [{"name": "Topology::File with Geometry::File", "where": "include/HyperHDG/topology/file.hxx"}],
     RV + ": recorded grids of generated domain files compared with a model of sub-cells",
     "Random domain files with shared, boundary and unused nodes; refinement up to four.")
prop("P11", "Geometry: mappings, volumes, barycentres and normals describe the same cell",
     """For every hyperedge the mapped points, the lexicographic and boundary lattice points, the volume, the face areas, the face barycentres
     and the local normals all belong to the same affine image of the unit cube: volumes are Gram determinants of the spanning vectors, local normals are outward unit normals,
     inner normals are unit and tangential (outward for unit cubes, columns of the rotation with the sign of their face for files) and outer normals unit and orthogonal to the cell, and the rotation times the scaling
     is the spanning matrix. Linear mappings map points and vectors according to their matrix and translation.""",
     ["inputs", "configurations"], "all hyperedges of cubic grids and files, all dimensions, scalings, orientations, refinements and reference points",
     "no test evaluates a geometry.", ["geometry/unit_cube.hxx", "geometry/file.hxx", "mapping/linear.hxx"],
     [{"name": "Geometry::UnitCube, Geometry::File, Mapping::Linear", "where": "include/HyperHDG/geometry"}],
     RV + ": metrics recomputed in extended precision from the mapped vertices",
     "The orientation of inner normals of file geometries is left open: code and documentation disagree, and solvers rely on the code.")
prop("P12", "Node types mark exactly the boundary faces, at every refinement",
     """The type of each face of a cubic hyperedge encodes exactly which boundary planes of the unit cube contain it, and is zero for all other faces;
     the type of each face read from a file is the one written there, sub-faces inherit it and faces inside a refined hyperedge have type zero.
     The types survive copying and changing refinements in any order.""",
     ["inputs", "histories", "configurations"], "all cubic grids and domain files, refinements, histories of refinement changes, copies",
     "no test evaluates node types.", ["node_descriptor/cubic.hxx", "node_descriptor/file.hxx"],
     [{"name": "NodeDescriptor::Cubic, NodeDescriptor::File", "where": "include/HyperHDG/node_descriptor"}],
     RV + ": recorded types compared with geometric positions and with the generated file",
     "Same generators as P09 and P10.")
prop("P13", "Elliptic problems assemble exactly the sum of their local contributions",
     """The matrix-vector product, the residual, the sparse matrix and the errors of an elliptic problem equal the sums over all hyperedges of
     the local contributions, each hyperedge being visited exactly once with its own geometry and data and zero-initialised output; rows of
     Dirichlet indices are zero in product, residual and matrix, the matrix represents the product, and zero_vector and size_of_system agree with the
     number of unknowns. This holds for every vector and scalar type, for each history of changes of Dirichlet indices and refinements, and inputs are not modified.""",
     ["inputs", "histories", "configurations"], "all hypergraphs (also with loops and multiple edges), vectors, times, Dirichlet sets and histories",
     "no test builds a problem.", ["global_loop/elliptic.hxx", "global_loop/prototype.hxx"],
     [{"name": "GlobalLoop::Elliptic", "where": "include/HyperHDG/global_loop/elliptic.hxx"}],
     RV + ": recording local solver with known coefficients against a dense reference assembly",
     "Topology, geometry and local solver are recording parts, so every visit, argument and result is observed.")
prop("P14", "Parabolic problems hand data and times to exactly the right hyperedges",
     """The product, residual, errors, initial state and data update of a parabolic problem equal the sums (or values) of the local contributions, every
     hyperedge visited exactly once with its own data and exactly the time the caller gave; the initial state contains the local values of each hypernode with Dirichlet entries as
     documented, data set from a vector are what later calls see, and inputs are not modified. This holds for every vector type and history of operations.""",
     ["inputs", "histories", "configurations"], "all hypergraphs, vectors, times, Dirichlet sets and histories of time steps",
     "no test builds a problem.", ["global_loop/parabolic.hxx", "global_loop/prototype.hxx"],
     [{"name": "GlobalLoop::Parabolic", "where": "include/HyperHDG/global_loop/parabolic.hxx"}],
     RV + ": recording local solver against a reference with a model of the stored data",
     "Same recording parts as P13.")
prop("P15", "Eigenvalue problems assemble product, mass, residual and Jacobian consistently",
     """The shifted-inverse, mass-approximating and nonlinear eigenvalue loops return products, mass products, Jacobians and initial states that equal the sums of the
     local contributions with exactly the given eigenvalue and time, visit every hyperedge exactly once, respect the current set of Dirichlet indices (also after it
     was replaced), keep the eigenvalue entry of the nonlinear problem separate from the unknowns, and do not modify their inputs.""",
     ["inputs", "histories", "configurations"], "all hypergraphs, vectors, eigenvalues, Dirichlet sets and histories",
     "no test builds a problem.", ["global_loop/shifted_inverse_eigenvalue.hxx", "global_loop/mass_approx_eigenvalue.hxx", "global_loop/nonlinear_eigenvalue.hxx", "global_loop/prototype.hxx"],
     [{"name": "GlobalLoop::ShiftedEigenvalue, MassEigenvalue, NonlinearEigenvalue", "where": "include/HyperHDG/global_loop"}],
     RV + ": recording local solver with known coefficients against a reference assembly",
     "Same recording parts as P13.")
prop("P16", "Plots are valid VTU files showing exactly the hyperedges and their values",
     """Every plot is a well-formed VTU document whose counts, offsets, connectivity, cell types and data arrays are mutually consistent. It
     contains each hyperedge exactly once, at its position in space shrunk by the requested scale about its centre, with the values of the
     local solver at exactly those corners, for the given skeletal unknowns and time, to the written precision; if hyperedge boundaries are
     requested, it also contains each of their faces once, at the requested scaling. Plotting does not modify the unknowns.""",
     ["inputs", "configurations"], "all hypergraphs of dimension one to three (cubic, file, refined), numbers of components, scales, times, subsets of plotted objects",
     "no test plots.", ["plot.hxx"], [{"name": "plot, plot_vtu", "where": "include/HyperHDG/plot.hxx"}],
     RV + ": strict parser of the written files against recorded geometry and a recording local solver",
     "Values on hyperedge boundaries are not claimed: the library writes zeros there because that part is not implemented.")
prop("P17", "Plot options are kept and honoured; files are named and replaced exactly",
     """Setting a plot option changes exactly that option, and asking for an option reports its current value as text without changing anything. Each plot writes exactly one file,
     <directory>/<name>[.<number>].vtu, creating the directory if needed, replaces an older file of that name completely and leaves all other files alone; the
     number is part of the name and incremented afterwards exactly if the options say so. Options of different problems do not interfere, and debug
     builds stop on unknown options or file endings.""",
     ["histories", "configurations"], "all histories of setting and querying options and plotting, for free plots and problems",
     "no test plots.", ["plot.hxx", "global_loop/elliptic.hxx"], [{"name": "set_plot_option, PlotFunctions::open_ofstream, plot", "where": "include/HyperHDG/plot.hxx"}],
     RV + ": model of options and of the directory tree over random histories",
     "Directories, names, numbers and flags are drawn at random; the tree is compared before and after each plot.")

SOLV = ": values reported by the solver are inserted into the weak equations with independent quadrature and test functions; solved problems are compared with known polynomial solutions"
prop("P18", "Local diffusion solvers (LDG-H) satisfy their equations for all data",
     """For every hyperedge, skeletal unknowns, coefficients, right-hand side, Dirichlet values, penalty and time, the local solution of Diffusion (and of DiffusionUniform
     with unit data) satisfies the weak flux and conservation equations of the LDG-H method on that hyperedge with exactly those data at exactly that time, and
     trace_to_flux / residual_flux return the moments of its numerical flux q.n + tau (u - lambda), zero on Dirichlet faces. The residual is affine with the linear
     part trace_to_flux, which is symmetric and semidefinite; errors() is the squared L2 distance to the analytic result (that of a problem is the root of their sum); inputs are unchanged; a solved problem
     reproduces every solution that the discrete spaces contain.""",
     ["inputs", "configurations"], "all hypergraphs, dimensions, polynomial degrees, coefficients, data, penalties and times",
     "no test instantiates a local solver.", ["local_solver/diffusion_ldgh.hxx", "local_solver/diffusion_uniform_ldgh.hxx", "geometry", "dense_la.hxx", "wrapper/lapack.hxx", "global_loop/elliptic.hxx"],
     [{"name": "LocalSolver::Diffusion, DiffusionUniform", "where": "include/HyperHDG/local_solver/diffusion_ldgh.hxx, diffusion_uniform_ldgh.hxx"}],
     RV + SOLV, "Quadrature, shape functions: stand-in for the absent submodule, written from its documented interface.")
prop("P19", "The interior penalty diffusion solver satisfies its equations for all data",
     """For every hyperedge, skeletal unknowns, coefficient, right-hand side, Dirichlet values, penalty and time, the local solution of DiffusionIP satisfies
     (kappa grad u, grad phi) - <kappa grad u.n, phi> + tau <u - lambda, phi> = (f, phi) with exactly those data at exactly that time, residual_flux returns the moments of
     -kappa grad u.n + tau (u - lambda), zero on Dirichlet faces, and its linear part is trace_to_flux; errors() is the squared L2 distance to the analytic result; inputs are
     unchanged; a solved problem reproduces every solution that the discrete space contains.""",
     ["inputs", "configurations"], "all hypergraphs, dimensions, polynomial degrees, coefficients, data, penalties and times",
     "no test instantiates a local solver.", ["local_solver/diffusion_ip.hxx", "geometry", "dense_la.hxx", "wrapper/lapack.hxx"],
     [{"name": "LocalSolver::DiffusionIP", "where": "include/HyperHDG/local_solver/diffusion_ip.hxx"}],
     RV + SOLV, "Same instruments as P18.")
prop("P20", "Postprocessed diffusion satisfies its equations and reports the improved error",
     """The local solution of DiffusionPostprocess satisfies the LDG-H equations of P18 for all data, its flux moments are those of the numerical flux, and errors() is the
     squared L2 distance between the analytic result and the postprocessed solution of degree p+1, whose weak gradient matches the flux and whose mean is that of the local solution; a
     solved problem reproduces every solution that the discrete spaces contain.""",
     ["inputs", "configurations"], "all hypergraphs, dimensions, polynomial degrees, coefficients, data, penalties and times",
     "no test instantiates a local solver.", ["local_solver/diffusion_ldgh_pp.hxx", "geometry", "dense_la.hxx", "wrapper/lapack.hxx"],
     [{"name": "LocalSolver::DiffusionPostprocess", "where": "include/HyperHDG/local_solver/diffusion_ldgh_pp.hxx"}],
     RV + SOLV + "; the postprocessing is recomputed from the reported values", "Same instruments as P18.")
prop("P21", "The diffusion-advection-reaction solver satisfies its equations for all data",
     """For every hyperedge, skeletal unknowns, diffusion, velocity, reaction, right-hand side, Dirichlet values, penalty and time, the local solution of
     DiffusionAdvectionReaction satisfies (kappa^-1 q, r) - (u, div r) - (b u, r) + <lambda, r.n> = 0 and -(q, grad phi) + (c u, phi) + <q.n + tau (u - lambda), phi> = (f, phi)
     with exactly those data at exactly that time, residual_flux returns the moments of q.n + tau (u - lambda), zero on Dirichlet faces, and its linear part is
     trace_to_flux; errors() is the squared L2 distance to the analytic result (that of a problem is the root of their sum); inputs are unchanged; a solved problem reproduces every solution that the discrete spaces contain.""",
     ["inputs", "configurations"], "all hypergraphs, dimensions, polynomial degrees, coefficients, data, penalties and times",
     "no test instantiates a local solver.", ["local_solver/diffusion_advection_reaction_ldg.hxx", "geometry", "dense_la.hxx", "wrapper/lapack.hxx"],
     [{"name": "LocalSolver::DiffusionAdvectionReaction", "where": "include/HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx"}],
     RV + SOLV, "Same instruments as P18.")
prop("P22", "The Bilaplacian solvers satisfy their equations for all data",
     """For every hyperedge, pair of skeletal unknowns, coefficient, right-hand side, Dirichlet and Laplace boundary values, penalty and time, the local solution of Bilaplacian (and,
     for constant data, BilaplacianUniform) satisfies the two coupled LDG-H systems for p = -grad u, w = div p / coefficient and q = -grad w with exactly those data at exactly
     that time; trace_to_flux / residual_flux return the moments of the two numerical fluxes, each penalised with the trace of its own variable, zero on Dirichlet faces. The
     residual is affine with the linear part trace_to_flux; errors() is the squared L2 distance to the analytic result (that of a problem is the root of their sum); inputs are unchanged; a solved problem reproduces every
     solution that the discrete spaces contain.""",
     ["inputs", "configurations"], "all hypergraphs, dimensions, polynomial degrees, coefficients, data, penalties and times",
     "no test instantiates a local solver.", ["local_solver/bilaplacian_ldgh.hxx", "local_solver/bilaplacian_uniform_ldgh.hxx", "geometry", "dense_la.hxx", "wrapper/lapack.hxx"],
     [{"name": "LocalSolver::Bilaplacian, BilaplacianUniform", "where": "include/HyperHDG/local_solver/bilaplacian_ldgh.hxx, bilaplacian_uniform_ldgh.hxx"}],
     RV + SOLV, "Same instruments as P18.")
prop("P23", "The parabolic diffusion solver performs theta steps for all data and histories",
     """For every hyperedge, history of time steps, skeletal unknowns, coefficient, right-hand side, Dirichlet and initial values, penalty, theta in (0, 1] and step size, DiffusionParab
     starts from the L2 projections of the initial values and each step satisfies the LDG-H equations with
     (u, phi) + theta dt F(t)(phi) = (u_old, phi) - (1 - theta) dt F(t - dt)(phi), where u_old and F(t - dt) are exactly those of the last set_data (or make_initial) of that hyperedge;
     fluxes are weighted in the same way and zero on Dirichlet faces, their linear part is trace_to_flux; errors() is the squared L2 distance between the stored state and the analytic result;
     only set_data and make_initial change the state; solutions that are affine in time and contained in the discrete space are reproduced in every step.""",
     ["inputs", "configurations", "histories"], "all hypergraphs, dimensions, polynomial degrees, coefficients, data, penalties, theta, step sizes and step sequences",
     "no test instantiates a local solver.", ["local_solver/diffusion_parab_ldgh.hxx", "global_loop/parabolic.hxx", "hdg_hypergraph.hxx", "geometry"],
     [{"name": "LocalSolver::DiffusionParab", "where": "include/HyperHDG/local_solver/diffusion_parab_ldgh.hxx"}],
     RV + SOLV + "; a model keeps the state of each hyperedge over the history", "Same instruments as P18.")
prop("P24", "The parabolic Bilaplacian solver performs implicit Euler steps for all data",
     """For every hyperedge, history of time steps, skeletal unknowns, coefficient, data, penalty and step size, BilaplacianParab with theta = 1 starts from the face and L2 projections of the
     initial values, each step satisfies the coupled LDG-H systems of P22 plus the time derivative (u - u_old) / dt with u_old exactly that of the last set_data (or make_initial) of that
     hyperedge; fluxes are the moments of the two numerical fluxes, zero on the respective Dirichlet faces; the linear part of the residual is trace_to_flux; errors() is the squared L2 distance
     to the analytic result; solutions that are affine in time and contained in the discrete space are reproduced in every step.""",
     ["inputs", "configurations", "histories"], "all hypergraphs, dimensions, polynomial degrees, coefficients, data, penalties, step sizes and step sequences",
     "no test instantiates a local solver.", ["local_solver/bilaplacian_parab_ldgh.hxx", "global_loop/parabolic.hxx", "hdg_hypergraph.hxx", "geometry"],
     [{"name": "LocalSolver::BilaplacianParab", "where": "include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx"}],
     RV + SOLV + "; a model keeps the state of each hyperedge over the history", "theta = 1 only: the code says that other values are not implemented.")
prop("P25", "The parabolic advection solver performs upwind theta steps for all data",
     """For every hyperedge of every geometry, history of time steps, velocity, right-hand side, inflow and initial values, penalty, theta and step size, AdvectionParab starts from the L2 projections
     of the initial values, treats a boundary face as inflow (prescribed) or outflow according to the velocity in the direction of its outward normal unless declared otherwise, and each step satisfies
     the upwind theta scheme with exactly the state of the last set_data (or make_initial) of that hyperedge; face fluxes are the moments of the upwind flux
     (weighted with theta), zero on inflow boundary faces. errors() (the squared L2 distance to the analytic result; that of a problem is the root of their sum) and bulk values belong to the stored state; solutions affine in time that the discrete space contains are reproduced in every step.""",
     ["inputs", "configurations", "histories"], "all hypergraphs, dimensions, polynomial degrees, velocities, data, penalties, theta, step sizes and step sequences",
     "no test instantiates a local solver.", ["local_solver/advection_parab_ldgh.hxx", "global_loop/parabolic.hxx", "geometry"],
     [{"name": "LocalSolver::AdvectionParab", "where": "include/HyperHDG/local_solver/advection_parab_ldgh.hxx"}],
     RV + SOLV + "; a model keeps the state of each hyperedge over the history", "Boundary faces crossed in both directions are left out.")
prop("P26", "Eigenvalue solvers satisfy the shifted equations and differentiate them exactly",
     """For every hyperedge, skeletal unknowns, coefficient, penalty and eigenvalue guess away from resonances of the hyperedge, DiffusionEigs and BilaplacianEigs report values that satisfy the
     homogeneous LDG-H equations of P18 and P22 with the mass term - eig (u, phi), whatever the parameters say about right-hand side and boundary values; trace_to_flux is linear and symmetric
     and zero on Dirichlet faces; jacobian_of_trace_to_flux is its derivative with respect to skeletal unknowns and eigenvalue at any point and in any direction; make_initial gives
     the face projections of the initial values; errors() is the squared L2 distance to the analytic result; node_types marks exactly the Dirichlet faces.""",
     ["inputs", "configurations"], "all hypergraphs, dimensions, polynomial degrees, coefficients, penalties, eigenvalue guesses and directions",
     "no test instantiates a local solver.", ["local_solver/diffusion_eigs_ldgh.hxx", "local_solver/bilaplacian_eigs_ldgh.hxx", "global_loop/nonlinear_eigenvalue.hxx", "geometry"],
     [{"name": "LocalSolver::DiffusionEigs", "where": "include/HyperHDG/local_solver/diffusion_eigs_ldgh.hxx"},
      {"name": "LocalSolver::BilaplacianEigs", "where": "include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx"}],
     RV + SOLV + "; fourth order differences in the eigenvalue with an error estimate", "Same instruments as P18; close to resonances of a single hyperedge nothing is claimed.")
prop("P27", "Timoshenko beam networks satisfy the beam equations in every position in space",
     """For every network of beams in space, refinement, nodal displacements and rotations, load, boundary values, time, penalty and (if the domain file gives them, for cross section directions that
     are those of the geometry) structural constants of each beam, TimoshenkoBeam reports the forces and moments at the beam ends, displacements and errors of the hybridised beam equations
     n = -K (u' - t x r), n' = f, m = -K r', m' - t x n = g in global coordinates, whichever way a beam is numbered or points; forces are zero at Dirichlet nodes.
     Rigid motions exert no forces, single beams are in equilibrium and obey reciprocity; assembled systems are symmetric and definite, and networks that are moved rigidly at their
     Dirichlet nodes move rigidly.""",
     ["inputs", "configurations"], "all networks, orientations, refinements, structural constants, loads, boundary values, times and penalties",
     "no test instantiates a local solver.", ["local_solver/timoshenko_network.hxx", "geometry/file.hxx", "mapping/linear.hxx"],
     [{"name": "LocalSolver::TimoshenkoBeam", "where": "include/HyperHDG/local_solver/timoshenko_network.hxx"}],
     RV + ": an independent solution of the beam equations in global coordinates; invariance under rigid motions, equilibrium, reciprocity", "Same instruments as P18.")
prop("P28", "Just-in-time compiled classes always match configuration and current sources",
     """For every history of HyperHDG.include() calls (several per interpreter, in fresh interpreters, in optimised ones), edits of library headers (also indirectly included ones), Cython
     templates, default replacements, the user's own headers, compiler options and import scripts, and failing tools, the returned class wraps exactly the C++ class, include files, own code,
     replacements and debug mode of the given configuration, built from the sources and options as they are at the time of the call: no stale module, no module of another
     configuration, no headers leaking from one configuration into another. If nothing changed, nothing is compiled again; if a tool fails, include() raises an
     exception instead of returning a class, and works again afterwards.""",
     ["inputs", "configurations", "histories", "fault_sequences"], "all configurations, histories of calls and edits, interpreters and tool failures",
     "no test calls include().", ["@import/HyperHDG/import_cxx/include.py", "@import/HyperHDG/import_cxx/config.py", "@import/HyperHDG/import_cxx/compile_prep.py", "@import/HyperHDG/import_cxx/names.py", "@import/HyperHDG/import_cxx/cpp.py", "@import/HyperHDG/import_cxx/paths.py"],
     [{"name": "HyperHDG.include", "where": "import/HyperHDG/import_cxx"}],
     "runtime monitor of real include() histories: recording stand-ins for cython, compiler and linker log what each module was made from, an offline oracle compares it with configuration and tree",
     "Histories run on a private copy of import, cython and include. Headers reached only through own code, reloading within one interpreter, and concurrent processes are left out.")
prop("P29", "Python objects do what their C++ objects do, for every history of calls",
     """For every history of constructions, method calls with vectors of Python floats, refinements, plots and deletions of several objects of the Cython modules (elliptic, parabolic and the three
     eigenvalue problems, with any of their constructors), the results, exceptions and plot files are those of the same history executed directly on the C++ classes: arguments are
     passed in order and unchanged, defaults are those of C++, vectors given by the caller are not modified, and each Python object owns its own C++ object until it is deleted.
     Incomplete or wrong arguments raise Python exceptions and never crash the interpreter.""",
     ["inputs", "histories", "configurations"], "all histories of calls on all wrapped classes",
     "no test compiles a Cython module.", ["@cython/elliptic.pyx", "@cython/parabolic.pyx", "@cython/mass_approx_eigenvalue.pyx", "@cython/nonlinear_eigenvalue.pyx", "@cython/shifted_inverse_eigenvalue.pyx", "global_loop/elliptic.hxx", "global_loop/parabolic.hxx"],
     [{"name": "Cython wrappers", "where": "cython"}],
     "runtime monitor of real Cython modules (half of them under AddressSanitizer) against the same histories executed by a C++ program",
     "Modules are compiled with recording local solvers, so that arguments are observed exactly.")
prop("P30", "Problem objects are independent and repeatable, also in concurrent threads",
     """For every set of problem objects (any loops, local solvers and hypergraphs) and histories of operations on each of them, the results of each history are bit for bit those it has alone in a
     process of its own, whatever other objects exist and however the histories are interleaved, executed again or run in concurrent threads (one thread per object); no data race
     occurs. No state is shared between objects, and no result depends on uninitialised or left-over values.""",
     ["histories", "schedules", "configurations"], "all sets of objects, interleavings and thread schedules",
     "no test creates two problem objects.", ["global_loop/elliptic.hxx", "global_loop/parabolic.hxx", "hdg_hypergraph.hxx", "local_solver/diffusion_ldgh.hxx", "wrapper/lapack.hxx", "wrapper/tpp.hxx"],
     [{"name": "global loops and local solvers", "where": "include/HyperHDG"}],
     RV + ": interleaved and concurrent histories against each history alone in a forked process, bit for bit; ThreadSanitizer",
     "Schedules are those of the sandbox and of random interleavings at operation granularity; constructions of objects from files and plot options are part of the histories.")
prop("P31", "Debug builds stop misuse with a message before memory is touched",
     """In builds without NDEBUG, every index or size out of range that is handed to matrices, tensor index decompositions, vector operations, hypernode factories, data containers, topologies,
     geometries (hyperedges, faces, directions, tensorial points, reference points), node descriptors, or as Dirichlet index or skeletal vector to a global loop, stops the program with a
     message that names its source, before anything is read or written out of range; everything in range, including the largest index, is accepted. Conditions are evaluated exactly
     once in debug builds, and not at all in release builds.""",
     ["inputs"], "all out-of-range indices, including those that wrap around, and all objects they are given to",
     "no test violates a precondition.", ["hy_assert.hxx", "dense_la.hxx", "hypercube.hxx", "hypernodefactory.hxx", "hy_data_container.hxx", "sparse_la.hxx", "topology/cubic.hxx", "topology/file.hxx", "geometry/unit_cube.hxx", "geometry/file.hxx", "node_descriptor/cubic.hxx", "node_descriptor/file.hxx", "global_loop/elliptic.hxx"],
     [{"name": "hy_assert", "where": "include/HyperHDG/hy_assert.hxx"}],
     "death monitors in forked processes under AddressSanitizer and UndefinedBehaviorSanitizer",
     "Exceptions are accepted instead of assertions. Mappings and tensor-product wrappers are reached through the geometries.")

prop("P32", "Solved problems converge to smooth solutions with the order of their method",
     """For every smooth solution, smooth positive coefficients, velocity, reaction and moderate penalty, the errors that solved problems report shrink with the order of the method when
     the grid (given as such or by refinement, also of hypergraphs of edges or faces in space) or the time step is halved: degree + 1 for Diffusion, DiffusionAdvectionReaction and
     Bilaplacian, degree + 2 for DiffusionPostprocess, degree + 1 (odd) or degree (even) for DiffusionIP with a penalty of order 1/h, all reduced by half the codimension since the
     measure of the hypergraph grows; second order in time and space for theta = 1/2 and linear elements, first order in time for theta = 1 (DiffusionParab, AdvectionParab and, with
     theta = 1, BilaplacianParab); the Newton method for DiffusionEigs and BilaplacianEigs finds the lowest eigenvalue with order 2 degree + 1, the generalised eigenvalue problems of
     the mass approximation and of the shifted inverse find it approximately.""",
     ["inputs", "configurations"], "all smooth solutions, coefficients, grids, refinements and step sizes",
     "tests run one solution on one grid; a lost order shows only in sequences of grids.", ["global_loop/elliptic.hxx", "global_loop/parabolic.hxx", "global_loop/nonlinear_eigenvalue.hxx",
      "global_loop/mass_approx_eigenvalue.hxx", "global_loop/shifted_inverse_eigenvalue.hxx", "local_solver/diffusion_ldgh.hxx", "local_solver/diffusion_ip.hxx", "local_solver/diffusion_ldgh_pp.hxx",
      "local_solver/diffusion_advection_reaction_ldg.hxx", "local_solver/bilaplacian_ldgh.hxx", "local_solver/diffusion_parab_ldgh.hxx", "local_solver/bilaplacian_parab_ldgh.hxx",
      "local_solver/advection_parab_ldgh.hxx", "local_solver/diffusion_eigs_ldgh.hxx", "local_solver/bilaplacian_eigs_ldgh.hxx", "topology/cubic.hxx", "geometry/unit_cube.hxx", "sparse_la.hxx"],
     [{"name": "GlobalLoop::Elliptic, Parabolic and eigenvalue problems", "where": "include/HyperHDG/global_loop"}],
     "online monitor of convergence orders of whole solves with manufactured solutions",
     "Orders are judged on the finest pair of grids with a tolerance of 0.3 (hyperedges of dimension one) or 0.65.")

prop("P33", "Shipped problem definitions fit the equations that they are used with",
     """For every point, time, space dimension and floating point type, the parameter sets that are shipped (reproducibles, example, defaults of the local solvers) are consistent: the
     right-hand side is the value of the differential operator which the respective solver discretises at the analytic result (diffusion, bilaplacian with its Laplace boundary values, advection,
     diffusion-advection-reaction, beams; plus the time derivative in parabolic sets; along the directions of the hyperedges for hypergraph sets), boundary and initial values are those of
     the analytic result at the same time (injection: one at the inflow), coefficients are positive and the inverse of their inverses, boundary type lists do not overlap; the
     defaults of the diffusion and bilaplacian solvers are unit coefficients, homogeneous data and natural boundary conditions; the shipped cross of beams converges with the order of its degree.""",
     ["inputs", "configurations"], "all points, times, space dimensions, directions of hyperedges and floating point types",
     "no test looks at the definitions; an inconsistent pair only shows as a convergence test that stagnates.",
     ["local_solver/timoshenko_network.hxx", "local_solver/diffusion_ldgh.hxx", "local_solver/bilaplacian_ldgh.hxx", "local_solver/diffusion_advection_reaction_ldg.hxx",
      "@reproducibles_python/parameters/diffusion.hxx", "@reproducibles_python/parameters/bilaplacian.hxx", "@reproducibles_python/parameters/advection.hxx",
      "@reproducibles_python/parameters/diffusion_advection_reaction.hxx", "@examples/parameters/diffusion.hxx"],
     [{"name": "parameter sets", "where": "reproducibles_python/parameters, examples/parameters, include/HyperHDG/local_solver"}],
     "online monitor: differential operators by sixth order differences in extended precision",
     "Initial guesses of eigenvalue problems are judged up to their noise; initial_laplace of stationary sets is not judged.")


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    from checks import CHECKS
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": p["mech"]}}) + "\n")
    checks = []
    for p in PROPS:
        if p["id"] in CHECKS:
            checks.append({"property": p["id"], "quick_cmd": "python3 run.py %s --tier quick" % p["id"],
                           "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
                           "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "exploration",
                           "level_note": p["note"]})
    m = {"version": 1, "setup_cmd": "python3 run.py --setup",
         "hooks": {"guard": "none", "enable": "no hooks: monitors observe the public interface and instantiate the templates with recording types", "source_commits": []},
         "checks": checks,
         "not_applicable": [{"property": p["id"], "reason": "no check yet"} for p in PROPS if p["id"] not in CHECKS]}
    json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
