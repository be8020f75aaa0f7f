"""Which properties are claimed, by what, and why the others are not."""
VN = "gated value graphs + global value numbering against a reference program"

CLAIMS = {
    "C01": dict(technique=VN, note="for orders 0..16, symbolic alpha, beta > -1 and x: jacobi, grad_jacobi, scaled_jacobi equal the classical closed form with h_n normalisation, as value-numbered terms; higher orders run through the same recurrence but are not decided"),
    "C02": dict(technique=VN, note="PKDO and monomial basis functions in dimensions 0..3 with symbolic orders and coordinates equal their closed forms, including the collapsed-coordinate singular points"),
    "C03": dict(technique=VN, note="every component of every gradient function is the exact symbolic derivative of the basis function it is listed with (pkdo and monomial with symbolic orders; onb, monomial, tensor product bases at sampled orders), singular points by limits"),
    "C04": dict(technique=VN, note="mode ids, functions, gradients and derivatives of tensor product bases over library bases and over arbitrary factor bases (client classes with uninterpreted functions and identifiers of every form), up to 5 factors"),
    "C05": dict(technique=VN, note="batches of two and three symbolic points against each point alone, symbolic expressions (pymbolic's If, Comparison and CommonSubexpression as what they denote) against numbers; every basis kind in 1..3 dimensions, orders up to 3; jacobi for symbolic parameters to degree 5"),
    "C06": dict(technique=VN, note="orthonormality_weight/inverse mass matrix guards as decision diagrams over the basis kinds"),
    "C07": dict(technique=VN, note="exceptions of all lookups over all pairs of kinds of spaces and shapes with symbolic dimensions"),
    "C08": dict(technique=VN, note="which functions a lookup returns for which space/shape"),
    "C09": dict(technique=VN, note="vandermonde and multi_vandermonde over uninterpreted functions and symbolic node counts"),
    "C10": dict(technique=VN, note="matrix identities over uninterpreted basis functions, symbolic node counts; products and inverses also interpreted over a prime field"),
    "C11": dict(technique=VN, note="matrix identities over uninterpreted test/trial functions and node maps, symbolic node counts"),
    "C12": dict(technique=VN, note="the raise condition of every operator as a decision diagram over symbolic sizes"),
    "C13": dict(technique=VN, note="permutation for symbolic tuple lists by lookup table, and for simplex/box lists entry by entry"),
    "C14": dict(technique=VN, note="flattening order of nodes, tuples, modes, quadratures and arrays on factors of pairwise different sizes with symbolic entries"),
    "C15": dict(technique=VN, note="equispaced node formula with symbolic order in dimensions 0..4, node tuple lists for dimensions 0..4, dispatch by dimension"),
    "C16": dict(technique=VN, note="every node of every order 1..17 (2D) and 1..16 (3D) entry by entry over an uninterpreted odd warp factor; the warp factor itself over uninterpreted Legendre functions for orders 1..4; all dispatch cases"),
    "C18": dict(technique=VN, note="exact_to of every rule class with symbolic orders and parameters; derived rules over arbitrary base rules"),
    "C17": dict(technique=VN + "; plus dataflow rules on the random generator argument", note="shape and containment of random nodes for symbolic counts over uninterpreted generator draws; reproducibility by a flow rule: every draw comes from the rng parameter"),
    "C20": dict(technique=VN, note="every order 0..52 (triangle), 0..20 (tetrahedron), any order (point, segment), tensor products of sampled orders; declared exactness only (C18, C19, C23 tie the declaration to the rule)"),
    "C24": dict(technique=VN, note="application, interval maps and products over arbitrary factor rules with symbolic nodes and weights; application to vector- and matrix-valued integrands on literal shapes"),
    "C25": dict(technique=VN + "; symbolic differentiation", note="second component of every map is the derivative of the first for symbolic points and parameters (sausage: degrees up to 31), end points, parameter rejections, transplanting of arbitrary rules by arbitrary maps; the parameter m(rho) of the strip map is uninterpreted in the map; the equation handed to the root finder is decided for one known root with stand-ins for the elliptic integral and the solver, and so is the refusal of an unconverged root or a missing scipy"),
    "C21": dict(technique=VN, note="built-in Golub-Welsch nodes and weights for N = 0..6 and symbolic alpha, beta as eigenvalues and eigenvectors of the reference tridiagonal matrix (symmetric eigensolver uninterpreted); all derived rule classes and back ends"),
    "C22": dict(technique=VN + " with Gauss nodes interpreted as polynomial roots over a prime field", note="node assembly for N = 0..5; all moments up to 2N-1 for N = 1..3 (symbolic alpha, beta), 1..4 (alpha = beta and Legendre)"),
    "C23": dict(technique=VN, note="node and weight formulas for symbolic node indices and orders, dimensions up to 7, orders up to 9 (line), 5 (triangle) and 4 (tetrahedron), all moments of degree up to 2s+1 in dimensions 1..3 over exact rationals"),
    "C27": dict(technique=VN + " with roots of unity evaluated in a prime field", note="node formulas for 1..10 and all moments for N = 1..32 (discrete Fourier transform modelled by its defining sum, cosines of rational multiples of pi exact in F_p); larger N run through the same loops but are not decided"),
    "C42": dict(technique=VN, note="shapes, dimension, node and weight values of all one-dimensional rules in both layouts, orders up to 4 and symbolic parameters"),
    "C28": dict(technique=VN, note="vertices, face tables, face maps, corners and geometric-algebra normals of all simplices (dimension 0..3), hypercubes (0..3) and prisms, entry by entry; unsupported dimensions and unknown shapes rejected"),
    "C29": dict(technique=VN, note="submesh elements of simplices (n = 1..8 / 1..5 / 1..3 in 1, 2, 3 dimensions) and boxes: index ranges, volumes and disjoint cover over exact rationals on the node tuple grid"),
    "C30": dict(technique=VN, note="dimensions and counts of all shapes and spaces with symbolic dimensions and orders, products of 1..3 arbitrary factors; space_for_shape of every shape"),
    "C31": dict(technique=VN, note="flattening and collapse of nested tensor products, isinstance of results, rejected products, over symbolic orders and all small nestings; two known findings"),
    "C34": dict(technique=VN, note="reshape and unreshape over symbolic entries, all axes and trailing/leading shapes for factors of different sizes, round trip, rejections"),
    "C35": dict(technique=VN, note="values, derivatives and integrals of Monomial with symbolic factor, exponents and coordinates"),
    "C33": dict(technique=VN, note="both equilateral tables exactly (square roots), barycentric maps and round trips for symbolic points in dimensions 1..3, affine maps with symbolic matrices"),
    "C36": dict(technique=VN, note="degree vectors over symbolic exponents, library bases and products (also nested); estimator rows for symbolic node arrays over arbitrary functions"),
    "C37": dict(technique=VN, note="combinations of up to 4 functions, nested up to three levels with all small length patterns, real and complex, over equal and different bases, with and without scipy, Gram matrices of arbitrary real and complex functions (Cholesky factor uninterpreted), least squares as pseudoinverse"),
    "C38": dict(technique=VN, note="residual, both derivative blocks and the Gauss-Newton increment over symbolic numbers of nodes, up to 4 integrands and 3 axes, and entry by entry"),
    "C41": dict(technique=VN, note="formula over symbolic orders and node sets for all shapes; the grid is the library's own equispaced grid"),
    "C26": {"technique": "abstract interpretation of the source to canonical terms (the table from unknown eigenvalues of an exactly known matrix, the integrator from unknown table entries), bounded unrolling of the refinement loop under path conditions, value numbering against reference programs",
            "note": "orders up to 9, up to three pieces, up to two bisections; Jacobi-Kronrod matrices exact for orders up to 9, eigenvalues unknown, convergence of Newton's iteration not covered; integrand values are finite"},
    "C19": dict(technique="constant propagation through the rule constructors; the tabulated literals checked against closed-form moments", note="every order of every table: points inside the element, weight sum and all polynomial moments up to the declared degree (tolerance 2e-12 of the volume); unavailable orders rejected"),
    "C39": dict(technique="interprocedural may-alias and effect analysis over the syntax tree", note="all functions of the package; writes through views, containers, calls, closures, out= and mutating methods; a value of unknown origin is not reported"),
    "C40": dict(technique="interprocedural may-alias, escape and effect analysis over the syntax tree", note="all module-level tables, caching decorators and module-level caches; per-object caches are not covered"),
    "C32": dict(technique=VN + "; the copy and pickle protocols and frozen dataclasses modelled over the class definitions", note="shapes, faces and spaces of dimension up to 4, nested products included; a class with its own __getnewargs_ex__ or __getstate__ is not decided"),
    "C45": dict(technique=VN, note="comparisons, sums and minima of the infinite degree with every finite number, itself and reflected operands"),
    "C44": dict(technique=VN, note="two and three elements with symbolic coefficients, orders up to 3 in one and 2 in two dimensions, with and without the constant mode; mode numbers and baseline for dimensions up to 3"),
}

NOT_APPLICABLE = {
    "C43": "rounding errors of LAPACK's eigensolver, FFT and Newton iterations in floating point: no sound static bound in reach; the constructions are decided in exact arithmetic by C21, C22, C26 and C27",
}
