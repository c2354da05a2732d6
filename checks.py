"""What each check runs. flavors: flavor -> (cases quick, cases thorough)."""
CHECKS = {
    "C01": dict(
        flavors={"fast": (40000, 1200000), "san": (6000, 160000)},
        rule="case = every non-zero pattern of every shape up to 9 cells x every single edit (first cases), then random edit histories on "
             "sparse matrices of five scalar types against a plain array; non-trivial and distinct = distinct (type, shape, content) state "
             "reached and fully compared after an edit",
        must_observe=["op:set", "op:set-zero", "op:erase-iterator", "op:self-sub", "equality-checks"]),
    "C02": dict(
        flavors={"fast": (30000, 900000), "san": (5000, 120000)},
        rule="case = every pattern of every shape up to 9 cells with every single erasure/zeroing through a full, row or column iterator (first cases), "
             "then random sparse/dense/fixed matrices with edits through iterators; after every edit all full, row and column walks (mutable, const, c-) "
             "are compared with the list of entries; non-trivial and distinct = distinct (representation, shape, content) state walked",
        must_observe=["sparse:erase", "sparse:set-zero", "dense:erase", "fixed:erase", "next-positions-checked"]),
    "C03": dict(
        parts=5, flavors={"fast": (60000, 1500000), "san": (6000, 150000)},
        rule="case = operands of random shape, pattern and value class in one representation and scalar type, on which every arithmetic operation is executed and "
             "compared entry by entry with long double arithmetic within the rounding bound of its scalar operations; distinct = distinct operand pairs",
        must_observe=["sparse:A.mul(B)", "dense:A.mul(B)", "fixed:A.mul(B)", "sparse:A-=A", "sparse:A*=a_ij", "dense:toDense"]),
    "C04": dict(
        parts=4, flavors={"fast": (80000, 2000000), "san": (6000, 160000)},
        rule="case = one matrix or vector of random kind, scalar type, shape and content class (mixed, all negative, all positive, zeros at chosen places, constant, huge, tiny, "
             "with NaN or infinities); every reduction, predicate and equality (with its copy and with one-entry edits) is compared with a scan of the full content; distinct = distinct contents",
        must_observe=["sparse:minmax", "dense:minmax", "fixed:minmax", "vector:minmax", "fixedvector:minmax", "dense:nan=1,inf=0", "sparse:nan=1,inf=0", "sparse:unequal", "vector:special"]),
    "C05": dict(
        flavors={"fast": (120000, 3000000), "san": (8000, 200000)},
        rule="case = vectors of random size, scalar type and value class, on which every operator, norm, slice (all index ranges of small vectors), traversal and range search is executed "
             "and compared element by element with long double arithmetic; distinct = distinct operand pairs",
        must_observe=["dynamic:left", "dynamic:mid", "dynamic:right", "fixed:mid", "dynamic:mag", "fixed:mag", "dynamic:v*=v_i", "dynamic:has=1", "dynamic:has=0", "dynamic:normalized"]),
    "C06": dict(
        parts=3, flavors={"fast": (30000, 600000), "san": (6000, 120000)},
        rule="case = one scalar type and representation with one pair of shapes (all pairs of shapes up to 5x5 first, then random ones, many with equal element count); every operation whose "
             "precondition these shapes violate is executed, the exception is classified and all operands compared with their content before; distinct = distinct (type, representation, shape pair)",
        must_observe=["exhaustive-shapes", "same element count, other shape", "rejected:NotSquare", "rejected:MatrixSizeMismatch", "rejected:MatrixMulMismatch", "rejected:MatrixVectorMismatch",
                      "rejected:VectorSizeMismatch", "rejected:InvalidOutputMatrix", "sparse:pcg(C size)", "dense:cg(x0 short)", "sparse:permutate(v)", "sparse:ilu0"]),
    "C07": dict(
        flavors={"fast": (20000, 400000), "san_noga": (2400, 60000)},
        rule="case = one container (dense, sparse, fixed matrix, dynamic or fixed vector) of random shape and content on which every accessor is called with every class of index beyond the "
             "dimensions (first beyond, column beyond with valid row, huge, wrapping around) under a SIGABRT trap, and with valid indices; the content is compared afterwards and some accesses are "
             "repeated in a child process; distinct = distinct (container, shape, content)",
        must_observe=["dense:stopped", "sparse:stopped", "fixed:stopped", "vector:stopped", "fixedvector:stopped", "dense:allowed", "sparse:allowed", "process-ended"]),
    "C08": dict(
        parts=4, flavors={"fast": (100000, 2500000), "san": (8000, 200000)},
        rule="case = one square matrix (random, patterned, permuted triangular, ill-conditioned, pivoting at every step, exactly factorable, exactly singular) factored with outputs of arbitrary "
             "old content and, if sparse, shape; structure, backward error, parity and the outcome are judged in extended precision; distinct = distinct input matrices",
        must_observe=["dense:factored", "sparse:factored", "fixed:factored", "dense:singular", "sparse:singular", "fixed:singular", "dense:odd", "sparse:odd", "exact-factors", "sparse:pivoted"]),
    "C09": dict(
        flavors={"fast": (160000, 4000000), "san": (12000, 300000)},
        rule="case = one Hermitian matrix (definite of many kinds, indefinite, semidefinite, non-positive diagonal) factored into an output of arbitrary old content; outcome, structure and backward "
             "error are judged in extended precision; distinct = distinct input matrices",
        must_observe=["dense:factored", "sparse:factored", "fixed:factored", "dense:rejected", "sparse:rejected", "fixed:rejected", "complex-content", "known-factor"]),
    "C10": dict(
        flavors={"fast": (160000, 4000000), "san": (12000, 300000)},
        rule="case = one sparse matrix (symmetric and unsymmetric patterns, bands, arrows with maximal fill-in, missing or vanishing pivots) given to ilu0, or one pair of triangular factors given to "
             "ainv_lu; identities on the pattern and patterns of the results are judged in extended precision; distinct = distinct inputs",
        must_observe=["ilu0:dropped-fill-in", "ilu0:singular", "ainv:singular", "ainv/dense:inverted", "ainv/sparse:inverted"]),
    "C11": dict(
        parts=4, flavors={"fast": (120000, 3000000), "san": (9000, 220000)},
        rule="case = one triangular system, one inversion (from A, from L and U, from L, U and P) or one determinant (exactly factorable matrices with known sign and value, integer, ill-conditioned, "
             "singular, non-square), judged by componentwise residuals or exact values in extended precision; distinct = distinct inputs",
        must_observe=["solve_lu/dense:solved", "solve_lu/sparse:solved", "solve_lu:singular", "inverse:singular", "inverse/dense:L,U,P", "inverse/sparse:L,U", "inverse:sharp-bound",
                      "determinant:odd", "determinant:even", "determinant:singular", "determinant:non-square", "determinant:sharp"]),
    "C12": dict(
        flavors={"fast": (60000, 1500000), "san": (10000, 250000)},
        rule="case = one system (diagonally dominant, positive definite, arbitrary with few sweeps, with a vanishing diagonal entry, exact initial guess) given to one solver; every sweep is replayed in "
             "extended precision and result, sweep count and stopping rule are compared; distinct = distinct (solver, system, guess, tolerance)",
        must_observe=["jacobi/sparse:converged", "jacobi/dense:converged", "gauss-seidel/sparse:converged", "sor over/dense:converged", "sor under/sparse:converged", "sweeps-replayed",
                      "zero-diagonal", "exact-guess", "complex"]),
    "C13": dict(
        flavors={"fast": (120000, 3000000), "san": (16000, 400000)},
        rule="case = one symmetric positive definite system given to cg or pcg (diagonal, exact and arbitrary definite preconditioners) or one matrix to the Jacobi preconditioner; every step is replayed in "
             "extended precision, residual orthogonality, stopping rule, step count and final residual are judged; distinct = distinct (solver, system, guess, tolerance)",
        must_observe=["cg/sparse:converged", "cg/dense:converged", "pcg diag/sparse:converged", "pcg exact/dense:converged", "pcg spd/sparse:converged", "exact-guess", "tolerance-zero",
                      "steps-replayed", "orthogonal-pairs", "preconditioner:zero-diagonal", "preconditioner:built", "diagonal-preconditioner"]),
    "C14": dict(
        flavors={"fast": (180000, 4000000), "san": (20000, 400000)},
        rule="case = every symmetric pattern of up to 5 nodes with diagonal and of 6 nodes without (first 66,634 cases), then random graphs (trees, grids, stars, rings, bipartite, several components, "
             "empty rows, relabelled); orderings are replayed as breadth-first numberings, permutations are compared entry by entry; distinct = distinct patterns and (matrix, permutation) pairs",
        must_observe=["exhaustive-patterns", "orderings", "empty-rows", "isolated-nodes", "permutations", "non-involutions", "own-permutations"]),
    "C15": dict(
        parts=3, flavors={"fast": (160000, 4000000), "san": (20000, 400000)},
        rule="case = one shape with every diagonal offset given to all constructors and compared entry by entry (inverse Hilbert in 128 bit integers), or one exactly representable matrix with one of the "
             "properties (or one entry away from it) given to all seven predicates; distinct = distinct matrices",
        must_observe=["%s:%s=%d" % (k, w, b) for k in ("dense", "sparse", "fixed") for w in ("orthogonal", "unitary", "projection", "symmetric", "hermitian", "skew-symmetric", "skew-hermitian") for b in (0, 1)]
                     + ["non-square", "offset-beyond-matrix", "sparse:inv_hilbert", "dense:inv_hilbert", "fixed:list", "sparse:tril below", "dense:triu above"]),
    "C16": dict(
        flavors={"fast": (400000, 8000000), "san": (40000, 800000)},
        rule="case = one triangle (integer, thin, axis parallel, regular, scaled, far from the origin, both orientations; fresh, copied, moved and prepared again, relabelled) or one set of independent vectors "
             "in 2 to 6 dimensions; every quantity is compared with extended precision geometry within a bound derived from the conditioning; distinct = distinct triangles and vector sets",
        must_observe=["clockwise", "counter-clockwise", "thin", "far-from-origin", "prepared-again", "outward-normals", "equidistant", "points-mapped"] + ["normal:%d" % k for k in (2, 3, 4, 5, 6)]),
    "C17": dict(
        flavors={"fast": (100000, 2500000), "san": (10000, 200000)},
        rule="case = one triangulation (grids with random diagonals and holes, grown by splitting and attaching, fans, several components, bow ties; random element orientation, vertex rotation and order) "
             "whose connectivity, flags and validation are compared with set-based faces, followed by eleven single corruptions, or one mesh with an overfull face; distinct = distinct triangulations",
        must_observe=["accepted", "inner-faces", "inner-vertices", "crowded-face", "set-up-again", "missing-vertex-only", "several components", "grid with holes", "closed fan", "bow tie"]
                     + ["rejected:" + x for x in ("index", "indices swapped", "isolated", "isolated added", "foreign element", "missing vertex", "stale coordinates", "stale element", "missing neighbour", "zero volume")]),
    "C18": dict(
        flavors={"fast": (24000, 500000), "san": (2400, 60000)},
        rule="case = one cell count (all pairs up to 12x12 first, zero included), size and offset; the generated mesh is compared with the regular grid point by point, cell by cell and face by face; "
             "distinct = distinct parameter sets",
        must_observe=["grids", "non-square-grids", "single-rows", "single-cell", "inner-points", "zero-cells-rejected", "validated"]),
    "C19": dict(
        flavors={"fast": (120000, 3000000), "san": (16000, 400000)},
        rule="case = one history of up to 80 operations on up to 5 mesh handles against a model of shared content; all handles are compared after every operation, released memory is counted whenever a handle "
             "disappears and balanced at the end; distinct = distinct histories",
        must_observe=["self-assign", "self-move", "copy-assign", "move-assign", "clear-shared", "clear-own", "destroy-last", "destroy-shared", "destroy-moved-from", "last-handle-drops", "shared-handle-drops",
                      "assign-same-mesh", "vector-of-handles", "by-value", "swap"]),
    "C20": dict(
        flavors={"fast": (400000, 8000000), "san": (40000, 800000)},
        rule="case = one point (node, inside, on a face, far beyond) of one supported (dimension, order) at which values, gradients and second derivatives of all functions, plain and weighted, are compared "
             "with the Lagrange basis computed from the nodes in extended precision; distinct = distinct (space, type, point)",
        must_observe=["%s:%s" % (s, w) for s in ("1D_1", "1D_2", "2D_1", "2D_2", "2D_3", "3D_1", "3D_2") for w in ("node", "inside", "face", "beyond")] + ["nodal-values", "unit-weights", "weights", "polynomials-reproduced", "component-beyond"]),
    "C21": dict(
        flavors={"fast": (160000, 3000000), "san": (12000, 250000)},
        rule="case = one triangulation (as C17, also with general coordinates) prepared for linear or quadratic elements; degrees of freedom of elements, edges and vertices, positions, flags, numbering and "
             "validation are compared with set-based edges; distinct = distinct (triangulation, order)",
        must_observe=["linear", "quadratic", "shared-midpoints", "boundary-midpoints", "inner-midpoints", "inner-edge-between-boundary-vertices", "boundaries-first", "boundaries-last", "boundaries-never",
                      "through-another-handle", "foreign-element-rejected", "points-interpolated", "general-coordinates", "grid with holes", "bow tie", "closed fan"]),
    "C22": dict(
        flavors={"fast": (400000, 8000000), "san": (40000, 800000)},
        rule="case = one rule, a random polynomial up to its degree with a start value, integrated with and without index and compared with the exact integral, and an arbitrary function with scalar, vector or "
             "matrix values compared with the sum over the recorded points; distinct = distinct (rule, type, polynomial)",
        must_observe=["%dD_%d:integrals" % (k, o) for k in (1, 2) for o in (1, 2, 3)] + ["start-values", "copied", "scalar-results", "vector-results", "fixed-vector-results", "matrix-results", "points-seen"]),
    "C23": dict(
        flavors={"fast": (80000, 2000000), "san": (8000, 200000)},
        rule="case = one generated pair of files (as string, or as files, some missing or unreadable) and four mutations of it (truncation, deleted, repeated, exchanged lines and tokens, off-by-one numbers, "
             "changed bytes, garbage); an independent strict parser decides what has to be loaded or rejected; distinct = distinct texts",
        must_observe=["loaded", "zero-based", "one-based", "missing-file", "validated"] + ["rejected:" + x for x in ("coordinate", "corner", "corner beyond the nodes", "corners", "dimension", "element count",
                      "element number", "no element header", "no node header", "node count", "node number", "overfull face", "repeated corner", "too few elements", "too few nodes", "too many elements", "too many nodes")]),
    "C24": dict(
        extra=["src/objloader/loader/MeshObjLoader.cpp"],
        flavors={"fast": (24000, 800000), "san": (8000, 250000)},
        rule="case = one generated OBJ text (index forms, relative indices, polygons, normals, materials, second shape, line endings, noise lines, all axes) whose mesh is compared with the generating model, the same "
             "text with an undefined vertex, and four hostile variants (mutated text and material file) whose meshes are walked completely; distinct = distinct texts",
        must_observe=["loaded", "files", "missing-file", "undefined-vertex-rejected", "hostile-loaded", "hostile-rejected", "long-names", "polygons", "second-shape-ignored", "several-materials", "lf", "crlf", "cr",
                      "form:v", "form:v/vt", "form:v//vn", "form:v/vt/vn", "form:mixed", "axes:01", "axes:02", "axes:10", "axes:12"]),
    "C25": dict(
        flavors={"fast": (60000, 1500000), "san": (8000, 200000)},
        rule="case = one mesh (linear or quadratic triangulation, 2D or 3D grid) exported with random point and cell arrays and options to a file that is parsed independently: counts, types, connectivity, offsets, "
             "points and every array are compared with the mesh and the given data; distinct = distinct files",
        must_observe=["linear", "quadratic", "hyper-cubes", "boundaries", "overwritten", "no-data", "no-options", "all-options", "point-arrays", "cell-arrays", "BoundaryLabel", "ImplicitLabel",
                      "ElementDeterminant", "ElementMatrix", "ElementGradient", "bytes-parsed"]),
    "C26": dict(
        flavors={"fast": (800000, 20000000), "san": (80000, 2000000)},
        rule="case = twenty random arguments of one integer or floating point type (8 and 16 bit types, all factorials and all binomials up to n = 150 exhaustively first), compared with 128 bit integers or extended "
             "precision; distinct = distinct (type, arguments)",
        must_observe=["exhaustive", "binom:edges", "binom:inner", "binom:large", "binom:zero", "binom:real", "binom:real negative", "binom:real zero", "binom:long double", "sign_pow:negative", "factorial", "minmax",
                      "traits", "real:nan", "real:inf", "complex:nan", "complex:inf", "complex:finite"]),
    "C27": dict(
        flavors={"fast": (800000, 16000000), "san": (60000, 1500000)},
        rule="case = one vector or dense, fixed or sparse matrix printed with random stream settings between other output; the text is parsed and compared entry by entry with the content; distinct = distinct texts",
        must_observe=["vector", "fixed vector", "int vector", "empty vector", "dense matrix", "fixed matrix", "one-row", "read-back", "sparse", "sparse:empty", "sparse:full", "stored-zero"]),
    "C28": dict(
        parts=5, extra=["src/objloader/loader/MeshObjLoader.cpp"],
        flavors={"san": (16000, 400000), "san_noga": (8000, 200000), "memcheck": (1000, 24000), "vdebug": (8000, 200000), "fast": (40000, 1000000)},
        rule="case = one random program of 25 to 150 operations on pools of vectors, dense and sparse matrices, permutations (real and complex) or mesh handles, taken from all modules, exceptions included, every "
             "result being inspected entry by entry; in addition the workloads of all other monitors are executed with other seeds, where only memory faults, undefined behaviour, undefined values and leaks count; "
             "distinct = distinct final states and the distinct inputs of the other workloads",
        must_observe=["exceptions", "steps", "exported", "linear system", "quadratic system", "triangle loaded", "obj loaded", "d lu", "s lu", "ilu0", "cg", "pcg", "cuthill", "permutate", "iterative", "s erase", "lists"]),
    "C29": dict(
        parts=6, extra=["src/objloader/loader/MeshObjLoader.cpp"], shards=4,
        flavors={"tsan": (6000, 150000), "fast": (24000, 600000), "san": (1500, 40000)},
        rule="case = two to four threads which execute operations drawn from 38 on shared matrices and vectors, or 14 on a shared mesh, shape functions and quadrature rules (each in an order of its own, with random "
             "delays), or release handles to one mesh, or run random programs on objects of their own; ThreadSanitizer watches all accesses and every result is compared bit by bit with a sequential run; "
             "distinct = distinct interleavings (orders in which operations started, with their threads)",
        must_observe=["interleaved", "switches", "shared-matrices", "shared-meshes", "handle-races", "own-objects", "vectors", "dense lu", "sparse lu", "sparse reads", "sparse iteration", "ilu0", "solve_lu", "ainv", "reordering",
                      "jacobi", "sor", "real 0", "real 1", "quadrature", "shape functions", "geometry", "assembly", "export", "triangle loader", "obj loader", "cube", "own mesh", "handles", "output"]),
    "C30": dict(
        flavors={"fast": (16000, 400000), "san": (1200, 30000)},
        rule="case = one rectangle or unfolded triangulation (random diagonals, holes, fans, jittered, split, rotated, scaled, renumbered; generated, built or loaded), linear or quadratic elements, float or double: the "
             "assembled matrix is compared with an independent assembly in extended precision, and the solutions of three of twelve solvers with a random polynomial of the ansatz space; or the error of a smooth "
             "solution on a mesh and its refinement; distinct = distinct triangulations and error pairs",
        must_observe=["linear", "quadratic", "matrices-compared", "free-nodes", "built", "loaded", "cube", "rates:linear", "rates:quadratic", "rates:deformed", "rows-only", "sparse lu", "dense lu", "cholesky", "cg", "pcg jacobi",
                      "pcg ilu", "sor", "reordered cg", "inverse", "dense cg", "gauss-seidel", "reordered lu", "mass-matrices", "projections", "boundary-nodes"]),
    "C31": dict(
        parts=4, flavors={"fast": (30000, 800000), "san": (1600, 40000)},
        rule="case = one finite difference system: Poisson, reaction, upwind convection or complex absorption equation on a rectangle grid with cubic solution (all points with identity rows, or interior only; "
             "any assembly order, overwritten entries, any expected entry count), an implicit heat equation with all time steps in one space-time system, or the second difference matrix with its closed-form "
             "determinant, inverse, Cholesky factor and square; the systems are solved by a random subset of 14 solver paths, every result judged by residual, by the known solution and by the discrete maximum "
             "principle; distinct = distinct right-hand sides and matrices",
        must_observe=["poisson:sor", "poisson:jacobi", "poisson:sparse lu", "poisson:dense lu", "poisson:reordered lu", "poisson:inverse", "poisson:full-pattern ilu", "poisson:cg", "poisson:cholesky", "poisson:pcg jacobi",
                      "poisson:pcg ilu", "reaction:cg", "convection:sor", "convection:gauss-seidel", "absorption:sor", "absorption:dense lu", "heat:sor", "heat:gauss-seidel", "heat:sparse lu", "heat:maximum principle",
                      "closed:sparse", "closed:dense", "interior-only", "strips"]),
}


def _suite(tier):
    """the other monitors as workloads of C28"""
    res = []
    for c in sorted(CHECKS):
        if c in ("C28", "C29", "C30", "C31"):
            continue
        fl = CHECKS[c]["flavors"]
        s = "san" if "san" in fl else "san_noga"
        s, n = s.replace("san", "san0"), fl[s][0]
        k = 1 if tier == "quick" else 60
        res.append((c, s, n * k // 6))
        if c not in ("C06", "C07", "C15", "C16", "C20", "C26"):
            res.append((c, "memcheck", max(160, fl["fast"][0] * k // 800)))
        if c not in ("C04", "C06", "C07", "C11", "C15", "C16", "C20", "C22", "C26", "C27"):
            res.append((c, "vdebug", fl["fast"][0] * k // 60))
    return res


CHECKS["C28"]["suite"] = {"quick": _suite("quick"), "thorough": _suite("thorough")}
CHECKS["C28"]["must_observe"] += ["suite:%s:%s" % (c, f) for c, f, _ in _suite("quick")]

# more cases where they are cheap: (fast, sanitizers); the suite above keeps the base counts
MORE = {"C01": (8, 6), "C02": (12, 7), "C03": (6, 4), "C04": (25, 25), "C05": (3, 6), "C06": (7, 2), "C07": (10, 2), "C08": (3, 12), "C09": (6, 20), "C10": (5, 12), "C11": (7, 12), "C12": (10, 4),
        "C13": (5, 4), "C14": (1, 6), "C15": (7, 6), "C16": (5, 6), "C17": (1, 4), "C18": (7, 8), "C19": (10, 6), "C20": (5, 6), "C21": (1, 5), "C22": (8, 10), "C25": (2, 4), "C26": (3, 6), "C27": (3, 6)}
for _c, (_f, _s) in MORE.items():
    _fl = CHECKS[_c]["flavors"]
    for _k in _fl:
        _fl[_k] = tuple(x * (_f if _k == "fast" else _s) for x in _fl[_k])
