"""Which harnesses decide which property, with how many cases (quick, thorough)."""
GEN = "Cases are generated from the seed; a case is non-trivial if its inputs (hashed) differ from those of all other cases. "


def solver_units(src, name, part, subs, quick, thorough):
    """Programs of one local solver, split to be compiled in parallel."""
    return [{"src": src, "name": "%s%d" % (name, k), "flags": ["-DPART=%d" % part, "-DSUB=%d" % k], "fast": True,
             "variants": ["asan", "rel"], "cases": (quick, thorough), "shards": 4} for k in range(1, subs + 1)]


CHECKS = {
    "P01": {"units": [{"src": "dense_ops.cxx", "name": "dense_structure", "flags": ["-DPART=1"], "variants": ["asan", "rel"], "cases": (400, 40000), "shards": 4},
                      {"src": "dense_ops.cxx", "name": "dense_arithmetic", "flags": ["-DPART=2"], "variants": ["asan", "rel"], "cases": (400, 40000), "shards": 4}],
            "rule": GEN + "Each case draws matrices of a list of shapes and entry types and compares all operations.",
            "require": ["structure-cases", "arithmetic-cases", "product-cases", "division", "division-by-zero", "norm-cases"]},
    "P02": {"units": [{"src": "dense_lapack.cxx", "name": "dense_solve", "flags": ["-DPART=1"], "variants": ["asan", "rel"], "cases": (500, 60000), "shards": 4}],
            "rule": GEN + "Each case solves systems of nine sizes and six exactly singular ones; some up to 72 unknowns.",
            "require": ["solve-regular", "solve-singular", "large-systems", "leak-observations"]},
    "P03": {"units": [{"src": "dense_lapack.cxx", "name": "dense_qr", "flags": ["-DPART=2"], "variants": ["asan", "rel"], "cases": ({"asan": 120, "rel": 800}, {"asan": 6000, "rel": 60000}), "shards": 4}],
            "rule": GEN + "Each case decomposes matrices of several shapes, kinds and both precisions.",
            "require": ["qr-cases", "large-matrices", "determinant-square", "determinant-rectangular", "determinant-negative"]},
    "P04": {"units": [{"src": "cg.cxx", "variants": ["asan", "rel"], "cases": (3000, 200000), "shards": 4}],
            "rule": GEN + "Each case draws an operator, right-hand side, tolerance and iteration limit.",
            "require": ["cg-converged", "cg-threw", "cg-trivial", "cg-hostile", "cg-long", "vector-cases"]},
    "P05": {"units": [{"src": "dofs.cxx", "variants": ["asan", "rel"], "cases": (500, 20000), "shards": 4}],
            "rule": GEN + "Each case is a history of 12 gather / scatter operations per configuration.",
            "require": ["gather-scatter", "accesses-observed", "wide-cases"]},
    "P06": {"units": [{"src": "hypergraph.cxx", "variants": ["asan", "rel"], "cases": (1000, 40000), "shards": 4}],
            "rule": GEN + "Each case is a history of 14 operations on a hypergraph, mirrored by a model.",
            "require": ["edges-observed", "data-writes", "refinements", "container-cases"]},
    "P07": {"units": [{"src": "domain.cxx", "name": "domain_geo", "flags": ["-DPART=1"], "variants": ["asan", "rel", "dbg"], "cases": ({"asan": 150, "rel": 400, "dbg": 200}, {"asan": 3000, "rel": 20000, "dbg": 6000}), "shards": 4}],
            "rule": GEN + "Each case writes domain files of six dimension pairs with random layout, or damages one.",
            "require": ["domains-read", "malformed-files", "shipped-files", "with-properties", "large-domains"]},
    "P08": {"units": [{"src": "domain.cxx", "name": "domain_pts", "flags": ["-DPART=2"], "variants": ["asan", "rel", "dbg"], "cases": ({"asan": 80, "rel": 600, "dbg": 150}, {"asan": 2000, "rel": 30000, "dbg": 5000}), "shards": 4}],
            "rule": GEN + "Each case writes point clouds in one to three dimensions.",
            "require": ["large-clouds", "radius-next-to-distance", "clouds", "edges-observed", "malformed-files", "disconnected-clouds"]},
    "P09": {"units": [{"src": "grids.cxx", "name": "grid_cubic", "flags": ["-DPART=1"], "variants": ["asan", "rel"], "cases": (400, 12000), "shards": 4}],
            "rule": GEN + "Each case is a cubic grid with a history of refinements.", "require": ["faces-observed", "grids", "refined-grids", "large-grids", "copies"]},
    "P10": {"units": [{"src": "grids.cxx", "name": "grid_file", "flags": ["-DPART=2"], "variants": ["asan", "rel"], "cases": (500, 15000), "shards": 4}],
            "rule": GEN + "Each case is a generated domain file with a history of refinements.", "require": ["faces-observed", "grids", "refined-grids", "large-grids", "copies", "separate-parts"]},
    "P11": {"units": [{"src": "grids.cxx", "name": "grid_metrics", "flags": ["-DPART=3"], "variants": ["asan", "rel"], "cases": ({"asan": 60, "rel": 240}, {"asan": 1500, "rel": 12000}), "shards": 4}],
            "rule": GEN + "Each case measures all cells of a grid or draws linear maps.", "require": ["cells-measured", "lexicographic", "boundary-lexicographic", "map", "maps"]},
    "P12": {"units": [{"src": "grids.cxx", "name": "grid_types", "flags": ["-DPART=4"], "variants": ["asan", "rel"], "cases": (500, 15000), "shards": 4}],
            "rule": GEN + "Each case observes all face types of a grid with a history of refinements.", "require": ["boundary-faces", "interior-faces", "refined-grids", "copies", "separate-parts", "large-grids"]},
    "P13": {"units": [{"src": "loops.cxx", "name": "loop_elliptic", "flags": ["-DPART=1"], "variants": ["asan", "rel"], "cases": (6000, 200000), "shards": 4}],
            "rule": GEN + "Each case is a history of operations on an elliptic problem.", "require": ["products", "residuals", "matrices", "errors", "dirichlet-changes", "refinements", "edges-visited"]},
    "P14": {"units": [{"src": "loops.cxx", "name": "loop_parabolic", "flags": ["-DPART=2"], "variants": ["asan", "rel"], "cases": (6000, 200000), "shards": 4}],
            "rule": GEN + "Each case is a history of operations on a parabolic problem.", "require": ["products", "residuals", "data-set", "initial-states", "residuals-with-data", "errors", "edges-visited"]},
    "P15": {"units": [{"src": "loops.cxx", "name": "loop_eigen", "flags": ["-DPART=3"], "variants": ["asan", "rel"], "cases": (6000, 200000), "shards": 4}],
            "rule": GEN + "Each case is a history of operations on three eigenvalue problems.", "require": ["products", "jacobians", "mass-products", "dirichlet-sets", "initial-states", "edges-visited"]},
    "P16": {"units": [{"src": "plot.cxx", "name": "plot_vtu", "flags": ["-DPART=1"], "variants": ["asan", "rel"], "cases": (400, 10000), "shards": 4}],
            "rule": GEN + "Each case plots a hypergraph and parses the file.", "require": ["files-parsed", "cells-checked", "values-checked", "boundary-cells", "local-evaluations", "large-plots"]},
    "P17": {"units": [{"src": "plot.cxx", "name": "plot_options", "flags": ["-DPART=2"], "variants": ["asan", "rel"], "cases": (150, 4000), "shards": 4}],
            "rule": GEN + "Each case is a history of eight plots with option changes in between.", "require": ["plots", "options-set", "options-queried", "invalid-options", "files-parsed"]},
    "P18": {"units": solver_units("diffusion.cxx", "diffusion_ldgh", 1, 4, {"asan": 120, "rel": 1200}, {"asan": 1500, "rel": 12000}),
            "rule": GEN + "Each case draws a hypergraph, coefficients, data and skeletal unknowns, or a solution to be reproduced.",
            "require": ["equations", "mass-fluxes", "fluxes", "errors", "error-norms", "hyperedges", "dirichlet-faces", "free-faces", "exact-problems", "uniform"]},
    "P19": {"units": solver_units("diffusion.cxx", "diffusion_ip", 2, 4, {"asan": 120, "rel": 1200}, {"asan": 1500, "rel": 12000}),
            "rule": GEN + "Each case draws a hypergraph, coefficients, data and skeletal unknowns, or a solution to be reproduced.",
            "require": ["equations", "fluxes", "errors", "error-norms", "hyperedges", "dirichlet-faces", "free-faces", "exact-problems"]},
    "P20": {"units": solver_units("diffusion.cxx", "diffusion_pp", 3, 4, {"asan": 120, "rel": 1200}, {"asan": 1500, "rel": 12000}),
            "rule": GEN + "Each case draws a hypergraph, coefficients, data and skeletal unknowns, or a solution to be reproduced.",
            "require": ["equations", "fluxes", "errors", "error-norms", "hyperedges", "dirichlet-faces", "free-faces", "exact-problems"]},
    "P21": {"units": solver_units("diffusion.cxx", "diffusion_dar", 4, 4, {"asan": 120, "rel": 1200}, {"asan": 1500, "rel": 12000}),
            "rule": GEN + "Each case draws a hypergraph, coefficients, data and skeletal unknowns, or a solution to be reproduced.",
            "require": ["equations", "mass-fluxes", "fluxes", "errors", "error-norms", "hyperedges", "dirichlet-faces", "free-faces", "exact-problems"]},
    "P22": {"units": solver_units("bilaplacian.cxx", "bilaplacian", 1, 3, {"asan": 120, "rel": 1200}, {"asan": 1500, "rel": 12000}),
            "rule": GEN + "Each case draws a hypergraph, coefficients, data and skeletal unknowns, or a solution to be reproduced.",
            "require": ["equations", "mass-fluxes", "fluxes", "errors", "error-norms", "hyperedges", "dirichlet-faces", "free-faces", "exact-problems", "uniform"]},
    "P23": {"units": solver_units("parabolic.cxx", "parab_diffusion", 1, 4, {"asan": 120, "rel": 1200}, {"asan": 1500, "rel": 12000}),
            "rule": GEN + "Each case draws a hypergraph, coefficients, data and up to three time steps interleaved over its hyperedges, or a solution to be reproduced.",
            "require": ["equations", "fluxes", "errors", "error-norms", "hyperedges", "dirichlet-faces", "free-faces", "exact-problems", "initial-states", "time-steps"]},
    "P24": {"units": solver_units("parabolic.cxx", "parab_bilaplacian", 2, 4, {"asan": 120, "rel": 1200}, {"asan": 1500, "rel": 12000}),
            "rule": GEN + "Each case draws a hypergraph, coefficients, data and up to three time steps interleaved over its hyperedges, or a solution to be reproduced.",
            "require": ["equations", "fluxes", "errors", "error-norms", "hyperedges", "dirichlet-faces", "free-faces", "exact-problems", "initial-states", "time-steps"]},
    "P25": {"units": solver_units("advection.cxx", "advection", 1, 3, {"asan": 120, "rel": 1200}, {"asan": 1500, "rel": 12000}),
            "rule": GEN + "Each case draws a hypergraph, velocity, data and up to three time steps interleaved over its hyperedges, or a solution to be reproduced.",
            "require": ["equations", "fluxes", "errors", "error-norms", "hyperedges", "inflow-faces", "outflow-faces", "free-faces", "exact-problems", "initial-states", "time-steps"]},
    "P26": {"units": solver_units("eigs.cxx", "eigs_diffusion", 1, 2, {"asan": 300, "rel": 2000}, {"asan": 1500, "rel": 10000}) +
                     solver_units("eigs.cxx", "eigs_bilaplacian", 2, 2, {"asan": 300, "rel": 2000}, {"asan": 1500, "rel": 10000}),
            "rule": GEN + "Each case draws a hypergraph, coefficients, eigenvalue guess, skeletal unknowns and directions.",
            "require": ["equations", "fluxes", "errors", "hyperedges", "dirichlet-faces", "free-faces", "jacobians", "initial-states"]},
    "P27": {"units": solver_units("timoshenko.cxx", "timoshenko", 1, 2, {"asan": 1200, "rel": 8000}, {"asan": 4000, "rel": 30000}),
            "rule": GEN + "Each case draws a network of beams with or without structural constants, loads, boundary values, time and nodal displacements and rotations.",
            "require": ["fluxes", "errors", "error-norms", "values", "hyperedges", "dirichlet-faces", "free-faces", "rigid-motions", "equilibria", "beams-with-properties", "matrices", "networks", "networks-with-properties"]},
    "P28": {"units": [{"script": "pyjit.py"}],
            "rule": GEN + "Each case is a history of include() calls in several interpreters, edits of the sources, options and scripts, and failing tools.",
            "require": ["classes-observed", "headers-observed", "sessions", "sessions-with-several-classes", "repetitions", "failures-injected", "edits-header",
                        "edits-template", "edits-own", "edits-options", "edits-defaults", "edits-scripts", "optimised-interpreters"]},
    "P29": {"units": [{"script": "pywrap.py"}],
            "rule": GEN + "Each case is a history of constructions, method calls, deletions and misuse of several Python objects.",
            "require": ["modules-compiled", "modules-with-sanitizer", "operations", "plot-files"] + ["op-" + o for o in (
                "flux residual errors zero dirichlet matrix data initial mass indices jacobian option plot refine refinement size delete wrong incomplete new").split()]},
    "P30": {"units": [{"src": "independence.cxx", "name": "independence%d" % k, "flags": ["-DPART=%d" % k], "variants": ["asan", "rel", "tsan"], "fast": True,
                       "cases": ({"asan": 60, "rel": 150, "tsan": 60}, {"asan": 1200, "rel": 5000, "tsan": 1200}), "shards": 2} for k in (1, 2, 3)],
            "rule": GEN + "Each case draws several problem objects with a history of operations each; they are executed interleaved or in threads.",
            "require": ["histories", "interleavings", "operations", "similar-objects", "threads"]},
    "P31": {"units": [{"src": "guards.cxx", "name": "guards", "flags": [], "variants": ["asan", "rel"], "cases": ({"asan": 700, "rel": 700}, {"asan": 20000, "rel": 20000}), "shards": 8}],
            "rule": GEN + "Each case uses one object properly and then with one index or size out of range, in a forked process.",
            "require": ["proper-uses", "misuse", "assertions-that-hold", "assertions-that-fail"] + ["misuse-" + k for k in (
                "row-index column-index entry-index get-column-index matrix-of-vector-size decompose-index inner-product-sizes combination-sizes combination-inplace-sizes dof-index "
                "local-index-size local-size local-size-add local-size-set global-size global-size-add global-size-set global-size-fill data-index span-index face-area-index "
                "local-normal-index inner-normal-index barycenter-index outer-normal-index lexicographic-index boundary-lexicographic-index reference-point reference-point-inplace "
                "topology-index geometry-index descriptor-index dirichlet-index trace-size trace-size-residual").split()]},
    "P32": {"units": [{"src": "convergence.cxx", "name": "convergence%d" % k, "flags": ["-DPART=%d" % k], "variants": ["rel"], "cases": (24, 500), "shards": 2} for k in range(1, 13)],
            "rule": GEN + "Each case draws a smooth solution and coefficients, solves the problem on two or three grids or with three step sizes and observes the errors.",
            "require": ["rates", "solves", "time-steps", "newton-steps", "eigenvalues"]},
    "P33": {"units": [{"src": "definitions.cxx", "name": "definitions%d" % k, "flags": ["-DPART=%d" % k], "variants": ["asan", "rel"] if k <= 6 else ["asan"],
                       "cases": (2000 if k != 6 else 600, 40000 if k != 6 else 4000), "shards": 2} for k in list(range(1, 7)) + list(range(11, 21))],
            "rule": GEN + "Each case draws a point, a time, directions of hyperedges and looks at all functions of the parameter sets there; some solve the shipped cross of beams.",
            "require": ["points", "functions", "equations", "type-lists", "defaults", "examples-solved"]},
}
