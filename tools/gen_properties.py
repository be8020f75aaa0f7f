"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os

P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=["modepy/" + f for f in files],
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=list(observe), hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

prop("C01", "Jacobi evaluation is the orthonormal Jacobi family",
 "For every alpha, beta > -1 (alpha + beta = -1 included), every order n >= 0 and every x, jacobi(alpha, beta, n, x) is the value at x of the degree-n polynomial with positive leading coefficient that is orthonormal under the weight (1-x)^alpha (1+x)^beta. grad_jacobi is its derivative in x, and scaled_jacobi is the same polynomial rescaled to take the value binom(n+alpha, n) at x = 1.",
 ["inputs"], "all real alpha, beta > -1, all n, all x (numbers, arrays, symbolic expressions)",
 "The tests sample a handful of (alpha, beta) pairs and orders up to about 10, and check orthogonality only to quadrature accuracy; scaled_jacobi and the alpha+beta=-1 branch are sampled at single points.",
 ["modes.py"], [("normalisation gamma0/gamma1 and the symmetric three-term recurrence", "modes.py:jacobi"), ("derivative identity", "modes.py:grad_jacobi"), ("normalisation constant and its limit", "modes.py:scaled_jacobi")],
 ["return values of jacobi, grad_jacobi, scaled_jacobi"])

prop("C02", "Simplex orthonormal and monomial basis functions equal their closed forms",
 "For every mode of every order, the orthonormal basis functions on the line, triangle and tetrahedron are the Proriol-Koornwinder-Dubiner polynomials, normalised to unit L2 norm on the reference simplex, and the monomial basis functions are the products of coordinate powers named by their mode identifier. At points where the collapsed coordinates are singular, the values are the continuous extensions (the collapsed coordinate is replaced by -1).",
 ["inputs"], "all mode indices (i), (i,j), (i,j,k) and all evaluation points, including the collapsed vertex and edge",
 "Tests check orthogonality up to small orders by quadrature; no quadrature node lies on a collapsed edge, and high modes are never evaluated.",
 ["modes.py"], [("collapsed coordinates", "modes.py:_rstoab,_rsttoabc"), ("product formulas", "modes.py:pkdo_2d,pkdo_3d,_pkdo_1d,monomial")],
 ["values of Basis.functions"])

prop("C03", "Gradients and axis derivatives are the exact derivatives of the functions",
 "For every basis, mode and point, the gradient function belonging to a mode returns one component per reference axis, in axis order, each equal to the exact partial derivative of the basis function of the same mode, including for modes of order zero along an axis. The functions given by derivatives(axis) equal component axis of the gradients.",
 ["inputs"], "all orthonormal simplex modes (1D-3D), all monomials, all tensor products of bases, all axes and points",
 "Tests compare against finite differences at random points for orders 5 and 8 with loose tolerances.",
 ["modes.py"], [("chain rule through the collapsed coordinates", "modes.py:grad_pkdo_2d,grad_pkdo_3d,_grad_pkdo_1d"), ("power rule", "modes.py:diff_monomial,grad_monomial,_diff_monomial_1d"), ("product rule", "modes.py:_TensorProductGradientBasisFunction,TensorProductBasis.gradients,TensorProductBasis.derivatives")],
 ["values of Basis.gradients and Basis.derivatives"])

prop("C04", "A tensor product basis enumerates modes, functions and derivatives alike",
 "For every tuple of factor bases, the mode identifiers, functions, gradients and derivatives of their tensor product are all listed in one common order in which the index along the first factor varies fastest. The function listed for a mode is the product of the factor functions named by that mode's index tuple, each applied to its own consecutive block of coordinates, and the orthonormality weight is the product of the factors' weights.",
 ["inputs", "configurations"], "all sequences of factor bases, with any mix of factor dimensions",
 "Tests use products of two or three line bases and one prism; most permutations agree for equal factors.",
 ["modes.py"], [("mode index tuples", "modes.py:TensorProductBasis._mode_index_tuples"), ("functions/gradients/derivatives/mode_ids", "modes.py:TensorProductBasis"), ("coordinate blocks", "modes.py:_TensorProductBasisFunction.__call__")],
 ["TensorProductBasis.mode_ids/functions/gradients/derivatives"])

prop("C05", "Basis evaluation is pointwise and the same numerically and symbolically",
 "A basis function or gradient evaluated at a batch of points gives, for each point, the value it gives for that point alone: no entry of the batch influences another entry's result. Turning the function into a symbolic expression follows the same formulas, comparisons and branch values as numerical evaluation.",
 ["inputs"], "all modes, all batches of points, symbolic and numerical arguments",
 "Tests evaluate symbolic expressions only for order 5 at a few random points, where no conditional is taken; batches are never compared to pointwise evaluation.",
 ["modes.py"], [("_where / _cse helpers", "modes.py"), ("coordinate-oblivious evaluation code", "modes.py: all functions reachable from Basis.functions and Basis.gradients")],
 ["results of basis functions on arrays and on pymbolic expressions"])

prop("C06", "Mass matrices are only formed from bases declared orthonormal",
 "mass_matrix and inverse_mass_matrix raise NotImplementedError for every Basis that does not declare unit orthonormality weight, monomial bases and products containing one included, and otherwise return inv(V V^T) and V V^T respectively, where V is the Vandermonde matrix of the basis at the nodes. Monomial bases raise BasisNotOrthonormal when asked for their weight.",
 ["inputs", "configurations"], "all Basis objects and node sets",
 "Tests only form mass matrices of orthonormal bases; the rejecting path is not exercised.",
 ["matrices.py", "modes.py"], [("weight guard", "matrices.py:inverse_mass_matrix"), ("weights", "modes.py:_SimplexONB,_SimplexMonomialBasis,TensorProductBasis")],
 ["return value or exception of mass_matrix and inverse_mass_matrix"])

prop("C07", "Basis, node, space and quadrature lookups reject mismatched arguments",
 "Looking up a basis, a node set or a quadrature rule for a space on a shape of the wrong kind raises NotImplementedError, and on a shape of the right kind whose dimension differs from the space's raises ValueError; unregistered space or shape types raise NotImplementedError. No such lookup silently returns an object of another dimension or fails with an unrelated exception.",
 ["configurations"], "all pairs of PN or tensor-product space with simplex or tensor-product shape, in all dimensions, over all lookup functions",
 "Tests only combine matching spaces and shapes.",
 ["modes.py", "nodes.py", "quadrature/__init__.py", "spaces.py", "shapes.py"], [("isinstance and spatial_dim guards of the registered implementations", "modes.py, nodes.py, quadrature/__init__.py")],
 ["exceptions raised by *_for_space and *_for_shape"])

prop("C08", "Basis lookup builds the right basis for the space",
 "basis_for_space and orthonormal_basis_for_space return, for a PN space of dimension at most 3, the orthonormal basis, and monomial_basis_for_space the monomial basis (basis_for_space also, above dimension 3), with the space's own dimension and order. For tensor product spaces the result is the tensor product of the bases looked up, by the same function, for the component spaces and shapes in order, with each component's dimension as its block size.",
 ["configurations"], "all spaces and shapes supported by the lookups",
 "Tests use a few spaces; swapped lookups inside a tensor product give bases spanning the same space and go unnoticed.",
 ["modes.py"], [("registered implementations", "modes.py:_basis_for_pn,_orthonormal_basis_for_pn,_monomial_basis_for_pn,_basis_for_tp,_orthonormal_basis_for_tp,_monomial_basis_for_tp"), ("simplex mode enumeration", "modes.py:SimplexBasis.mode_ids,_SimplexONB,_SimplexMonomialBasis")],
 ["objects returned by the three lookups"])

prop("C09", "Vandermonde matrices hold function j at node i in entry (i, j)",
 "For every sequence of functions and every node array, vandermonde returns the matrix whose entry (i, j) is function j at node i, and an empty sequence gives a matrix with one row per node and no columns. multi_vandermonde returns one such matrix per component of the tuple-valued functions, in component order, and raises ValueError for an empty sequence.",
 ["inputs"], "all function sequences (any length) and node arrays",
 "Tests use it only through square, symmetric situations and never with zero functions.",
 ["matrices.py"], [("column fill", "matrices.py:vandermonde,multi_vandermonde")],
 ["returned matrices"])

prop("C10", "Interpolation and differentiation matrices solve the right systems",
 "For unisolvent nodes, the resampling matrix is V_new V_old^-1 (or V_new pinv(V_old) when the old system is not square and least squares are allowed), and the differentiation matrices are dV_k(nodes) V(from_nodes)^-1, one per axis in axis order, with from_nodes defaulting to nodes. They therefore reproduce every function of the span exactly.",
 ["inputs"], "all bases, old/new node sets, from_nodes given or omitted, square or least squares",
 "Tests check a few orders with old and new nodes of similar kind; the least-squares and from_nodes paths are hardly exercised.",
 ["matrices.py"], [("matrix algebra", "matrices.py:resampling_matrix,differentiation_matrices,diff_matrices")],
 ["returned matrices"])

prop("C11", "Quadrature-based operator matrices apply the stated bilinear forms",
 "The nodal quadrature test matrix equals V^-T (T^T W) and the nodal bilinear-form matrix equals V_test^-T (T^T W S) V_trial^-1, where W holds the quadrature weights, T the test functions at the (optionally mapped) quadrature nodes, S the trial functions at the unmapped quadrature nodes, and V the Vandermonde matrices at the given or default nodes. The spectral diagonal mass matrix is the weights of a tensor product of one-dimensional rules.",
 ["inputs"], "all rules, function sets, node sets and node maps, given or omitted",
 "Tests compare a few symmetric instances, in which swapping test and trial, mapped and unmapped nodes, or input and output nodes cannot be seen.",
 ["matrices.py"], [("matrix algebra", "matrices.py:nodal_quadrature_test_matrix,nodal_quadrature_bilinear_form_matrix,spectral_diag_nodal_mass_matrix and the deprecated *_quad_mass_matrix* and *_for_face functions")],
 ["returned matrices"])

prop("C12", "Operators that need unisolvent nodes reject mismatched sizes",
 "Every function that builds an operator from interpolation nodes raises an exception, instead of returning a matrix, when the number of nodes to be interpolated from differs from the number of basis functions (except a least-squares resampling that was asked for). Likewise a node or quadrature routine given an explicit list of node tuples of the wrong length, an invalid axis, an axis of the wrong length or a wrong number of orders raises ValueError.",
 ["inputs"], "all mismatching sizes",
 "Tests always pass matching sizes.",
 ["matrices.py", "nodes.py", "tools.py", "spaces.py"], [("length guards", "matrices.py, nodes.py, tools.py:reshape_*, spaces.py:space_for_tensor_product_shape")],
 ["exceptions"])

prop("C13", "The derivative permutation swaps the first axis with the reference axis",
 "For every closed list of node tuples and every axis, diff_matrix_permutation returns the permutation p with: node tuple p[i] is node tuple i with entries 0 and axis exchanged; axis 0 gives the identity. Hence D_axis = D_0[p][:, p] on node sets with that symmetry.",
 ["inputs"], "all node tuple lists closed under exchange, all axes and dimensions",
 "Tests cover simplices of dimension 2 and 3 at a few orders.",
 ["matrices.py"], [("index lookup and swap", "matrices.py:diff_matrix_permutation")],
 ["returned permutation"])

prop("C14", "All tensor product orderings agree, with the first factor fastest",
 "Tensor product nodes, tensor product node tuples, tensor product quadrature nodes and weights, tensor product modes and the multi-axis reshaping of nodal arrays all use the same linear order, in which the index along the first factor varies fastest; coordinate blocks appear in factor order. The zero-factor product has exactly one node with zero coordinates.",
 ["inputs", "configurations"], "all lists of factor node sets, any mix of factor dimensions and sizes, zero factors included",
 "Tests use equal factors, for which an exchanged order is often invisible, and never mix all five orderings.",
 ["nodes.py", "modes.py", "tools.py", "quadrature/__init__.py"], [("Fortran-order flattening", "nodes.py:tensor_product_nodes"), ("tuple enumeration", "nodes.py:_node_tuples_for_tp; modes.py:TensorProductBasis._mode_index_tuples"), ("reshape order", "tools.py:reshape_array_for_tensor_product_space")],
 ["returned arrays and tuples"])

prop("C15", "Equispaced nodes lie at node tuple / order; order 0 gives the centroid",
 "Equispaced and equidistant nodes of order n >= 1 on a simplex are 2*t/n - 1 for the node tuples t in order, and for order 0 the single node is the mean of the vertices, in every dimension. Node tuples of a PN space are all non-negative tuples summing to at most the order, and edge-clustered nodes are warp-and-blend nodes up to dimension 3 and equidistant nodes above. The Legendre-Gauss and Legendre-Gauss-Lobatto tensor product nodes of order n are the products of the n+1 one-dimensional nodes with themselves.",
 ["inputs"], "all dimensions and orders, explicit or default node tuples",
 "Tests sample a few dimensions and orders and compare node sets with themselves.",
 ["nodes.py"], [("node formulas", "nodes.py:equidistant_nodes,_equispaced_nodes_for_pn,_edge_clustered_nodes_for_pn,_node_tuples_for_pn,warp_and_blend_nodes")],
 ["returned node arrays"])

prop("C16", "Warp-and-blend nodes follow Warburton's construction in tuple order",
 "For every order, warp-and-blend nodes displace the equidistant nodes, in node tuple order, by the interpolated Gauss-Lobatto displacement blended from each edge (2D) or face (3D), with the tabulated or limiting blending parameter of that order, and in 1D they are the Legendre-Gauss-Lobatto nodes permuted by the node tuples.",
 ["inputs"], "all orders and node tuple lists in dimensions 1-3",
 "Tests look at Lebesgue constants and symmetry for a few orders; tabulated parameters are only exercised for some orders.",
 ["nodes.py"], [("warp and blend", "nodes.py:warp_factor,_2d_equilateral_shift,warp_and_blend_nodes_2d,warp_and_blend_nodes_3d,warp_and_blend_nodes")],
 ["returned node arrays"])

prop("C17", "Random nodes depend only on the given generator and fill the request",
 "random_nodes_for_shape draws random numbers only from the generator it is given (making a fresh one only if none is given), also when it delegates to component shapes, so equal generator states give equal nodes. It returns exactly the requested number of nodes, each inside the reference shape.",
 ["inputs", "histories"], "all shapes, counts and generator states",
 "Tests draw unseeded nodes and check membership for a few shapes.",
 ["nodes.py"], [("rng plumbing and rejection sampling", "nodes.py:_random_nodes_for_simplex,_random_nodes_for_tp")],
 ["returned nodes, generator state"])

prop("C18", "Declared exactness and node counts of the rules are those of their family",
 "Each rule's exact_to equals its family's algebraic exactness: 2N+1 for (N+1)-node Jacobi-Gauss rules, 2N-1 for (N+1)-node Gauss-Lobatto rules, N for Clenshaw-Curtis, 2s+1 for Grundmann-Moeller of order s, infinite for zero-dimensional rules, the tabulated degree for tabulated rules, the minimum over the factors for tensor products, 2n-1 and 3n+1 for the Gauss and Kronrod rules of order n; rules without a defined exactness raise AttributeError. An affinely transformed rule keeps the exactness of the rule it came from, and a non-trivially transplanted rule declares none.",
 ["inputs"], "all rules and orders",
 "Tests verify exactness up to what is declared, so understated, missing or propagated-through-wrapper declarations pass, and overstated ones pass where the degree is not sampled.",
 ["quadrature/__init__.py", "quadrature/jacobi_gauss.py", "quadrature/clenshaw_curtis.py", "quadrature/grundmann_moeller.py", "quadrature/kronrod.py", "quadrature/transplanted.py"], [("exact_to arguments", "constructors of all Quadrature subclasses")],
 ["Quadrature.exact_to"])

prop("C19", "Tabulated rules integrate every polynomial up to their declared degree",
 "For every order offered by the tabulated simplex, square and cube rules, the tabulated points, mapped to the reference element as the rule does, lie inside it, their weights sum to its volume, and every polynomial up to the declared degree is integrated exactly up to rounding. Asking for an order or dimension that is not tabulated raises QuadratureRuleUnavailable.",
 ["configurations"], "all entries of all quadrature tables",
 "Tests start from order 1, sample odd orders on hypercubes and use a tolerance tied to a few monomials; negative paths are not tested.",
 ["quadrature/xg_quad_data.py", "quadrature/vr_quad_data_tri.py", "quadrature/vr_quad_data_tet.py", "quadrature/jaskowiec_sukumar_tet_data.py", "quadrature/witherden_vincent_quad_data.py", "quadrature/xiao_gimbutas.py", "quadrature/vioreanu_rokhlin.py", "quadrature/jaskowiec_sukumar.py", "quadrature/witherden_vincent.py"], [("tables", "the *_data modules"), ("mapping to the reference element", "constructors of the four classes")],
 ["nodes, weights, exact_to of the rules"])

prop("C20", "quadrature_for_space returns a rule at least as exact as the space's order",
 "For every supported space and shape, quadrature_for_space returns a rule on that shape, of its dimension, whose declared exactness is at least the order of the space (for tensor products: each factor rule at least as exact as its component space, orders may differ between the factors); on simplices it falls back to a Grundmann-Moeller rule when no tabulated rule of the order exists. Zero-dimensional spaces get the one-point rule.",
 ["configurations"], "all spaces and shapes",
 "Tests sample a few orders and dimensions.",
 ["quadrature/__init__.py"], [("rule selection", "quadrature/__init__.py:_quadrature_for_pn,_quadrature_for_tp")],
 ["returned rule"])

prop("C21", "Gauss-Jacobi rules come from the recurrence of the Jacobi polynomials",
 "For all alpha, beta > -1 outside the documented exclusion, the built-in Gauss-Jacobi nodes are the eigenvalues of the symmetric tridiagonal matrix of the orthonormal Jacobi recurrence, N+1 of them, and the weights are the squared first components of the unit eigenvectors times the total mass of the weight; the Chebyshev case alpha = beta = -1/2 uses the closed forms in ascending order. Legendre, Chebyshev and Gegenbauer rules are these rules with (0,0), (-1/2,-1/2) or (1/2,1/2), and (alpha, alpha), and the two back ends use the same number of nodes; the back end asked for is the one used, also for the factors of tensor product rules.",
 ["inputs"], "all alpha, beta, N and back ends",
 "Tests sample a few (alpha, beta) and N.",
 ["quadrature/jacobi_gauss.py"], [("Golub-Welsch", "quadrature/jacobi_gauss.py:JacobiGaussQuadrature")],
 ["nodes and weights"])

prop("C22", "Gauss-Lobatto rules have endpoint nodes and the exact Lobatto weights",
 "Gauss-Lobatto node sets of order N have N+1 ascending nodes: -1, the N-1 Gauss-Jacobi nodes for (alpha+1, beta+1), and 1 (the single node 0 for N = 0). The Jacobi-Gauss-Lobatto weights are the interpolatory weights for (1-x)^alpha (1+x)^beta on those nodes, for every alpha, beta > -1, and fewer than two nodes raise ValueError.",
 ["inputs"], "all alpha, beta, N",
 "Tests only use alpha = beta = 0.",
 ["quadrature/jacobi_gauss.py"], [("node assembly", "quadrature/jacobi_gauss.py:jacobi_gauss_lobatto_nodes"), ("weights", "quadrature/jacobi_gauss.py:JacobiGaussLobattoQuadrature")],
 ["nodes and weights"])

prop("C23", "Grundmann-Moeller rules follow the published weight and point formula",
 "For every order s and dimension n, the rule uses, for i = 0..s and every composition beta of s-i into n+1 parts, the point with barycentric coordinates (2 beta_j + 1)/(2s+1+n-2i) and accumulates the weight (-1)^i 2^(-2s) (2s+1+n-2i)^(2s+1) / (i! (2s+1+n-i)!), scaled to the volume of the reference simplex. Coinciding points are merged by adding their weights.",
 ["inputs"], "all s and n",
 "Tests go up to dimension 3-4 and order 6.",
 ["quadrature/grundmann_moeller.py"], [("weight formula and point map", "quadrature/grundmann_moeller.py")],
 ["nodes and weights"])

prop("C24", "Applying, transforming and multiplying rules preserves the integral",
 "Applying a rule to f yields the sum over nodes of weight times f(node), also for vector- and matrix-valued f with nodes along the last axis. A rule transformed to [left, right] has nodes left + (x+1)/2 (right-left) and weights scaled by (right-left)/2, rejecting empty intervals with ValueError; a tensor product rule has the products of the factor weights at the tensor product of the factor nodes, in the same order.",
 ["inputs"], "all rules, integrands, intervals and factor lists",
 "Tests sample some intervals and products of equal rules.",
 ["quadrature/__init__.py"], [("Quadrature.__call__, Transformed1DQuadrature, TensorProductQuadrature", "quadrature/__init__.py")],
 ["nodes, weights, values"])

prop("C25", "Transplanted rules use a map and its exact derivative",
 "Each of the transplanting maps returns a pair (g(s), g'(s)) in which the second entry is the exact derivative of the first and g fixes -1 and 1; transplanting a rule moves the nodes to g and multiplies the weights by g', keeping the presence or absence of the leading axis. The parameter m of the strip map solves K(1-m)/K(m) = 4 log(rho)/pi for the complete elliptic integral K. Parameters out of range (degree, rho, alpha, endpoint nodes for the strip map) raise ValueError.",
 ["inputs"], "all nodes and map parameters",
 "Tests sample a few parameters and compare integrals of smooth functions.",
 ["quadrature/transplanted.py"], [("maps", "quadrature/transplanted.py:map_identity,map_sausage,map_kosloff_tal_ezer,map_strip"), ("transplant", "quadrature/transplanted.py:transplanted_1d_quadrature")],
 ["values of the maps and of the transplanted rules"])

prop("C26", "Kronrod rules pair each node with its weight, and quadgk adds up the pieces",
 "A Kronrod rule of order n lists n Gauss nodes and n+1 further nodes symmetrically, with each weight attached to its own node in both the Gauss and Kronrod sums; nodes and weights are those of the Jacobi-Kronrod matrix of order 2n+1 (the eigenvalues and twice the squared first components of its normalised eigenvectors), the embedded weights those of the n-point Gauss-Legendre rule. The adaptive integrator returns the sum of the estimates over segments that exactly partition the interval, transforms infinite intervals by maps with the matching Jacobian for every orientation, and stops only when the tolerance or the evaluation budget is reached.",
 ["inputs", "histories"], "all orders, intervals (finite, half-infinite, infinite, reversed, with breakpoints), integrands and tolerances",
 "Tests run n up to 13 and six integrals in forward orientation.",
 ["quadrature/kronrod.py"], [("assembly", "quadrature/kronrod.py:make_kronrod_quadrature,_evalrule"), ("interval transforms", "quadrature/kronrod.py:_transform_*"), ("heap accounting", "quadrature/kronrod.py:_do_quadgk"), ("construction", "quadrature/kronrod.py:kronrod,gauss,_eigpoly,_eignewt,_eigvec1")],
 ["rules, returned integral and error estimate"])

prop("C27", "Clenshaw-Curtis and Fejer weights are the interpolatory weights",
 "Clenshaw-Curtis and Fejer rules of every order use the Chebyshev extreme points or roots in one fixed order, with the interpolatory weights for the unit weight function, for which the weights sum to 2 and all polynomials of degree less than the number of nodes are integrated exactly.",
 ["inputs"], "all orders and kinds",
 "Tests sample orders up to about 8.",
 ["quadrature/clenshaw_curtis.py"], [("FFT construction", "quadrature/clenshaw_curtis.py")],
 ["nodes and weights"])

prop("C28", "Reference vertices, faces and face maps are mutually consistent",
 "For simplices and hypercubes, each face lists the vertex indices of one facet of the reference element, every facet exactly once, and the face map takes the reference face's vertices to those volume vertices in listed order and is affine. The listed order is such that the computed normal of every face points outward, has unit length when normalised, and faces of unsupported dimensions raise NotImplementedError.",
 ["configurations", "inputs"], "all faces of simplices and hypercubes of dimensions 1-3, all points of the face",
 "Tests check normals and surface integrals in dimensions 1-3 to tolerance, but not the index tables as such or error behaviour beyond dimension 3.",
 ["shapes.py"], [("face tables", "shapes.py:_SIMPLEX_FACES,_HYPERCUBE_FACES"), ("face maps", "shapes.py:_simplex_face_to_vol_map,_hypercube_face_to_vol_map"), ("vertices and normals", "shapes.py:unit_vertices_for_simplex,unit_vertices_for_tp,face_normal")],
 ["faces_for_shape, map_to_volume, face_normal, unit_vertices_for_shape"])

prop("C29", "Submeshes tile the element with consistently oriented cells",
 "For the node tuples of every order, submesh_for_shape on a simplex or hypercube returns index tuples into the node tuple list of cells that cover the reference element exactly once without overlap: segments, positively oriented triangles and tetrahedra, or quadrilaterals and hexahedra whose vertices follow the reference vertex order.",
 ["inputs"], "all orders and shapes of dimensions 1-3",
 "Tests only count hypercube cells.",
 ["shapes.py"], [("offset stencils", "shapes.py:submesh_for_simplex,submesh_for_hypercube")],
 ["returned index tuples"])

prop("C30", "Dimensions and counts of spaces and shapes match what they describe",
 "The spatial dimension, number of vertices, number of faces, space dimension and order reported by every shape and space agree with its definition: binomial(order+dim, dim) for PN, sums and products over the components for tensor products, dim+1 vertices and faces for simplices, and all-equal component order or AttributeError. space_for_shape gives PN on simplices and the tensor product of per-component spaces with the given order or orders on tensor product shapes.",
 ["configurations"], "all spaces and shapes, any nesting",
 "Tests use a few equal-factor products.",
 ["spaces.py", "shapes.py"], [("properties", "spaces.py, shapes.py")],
 ["attributes of shapes and spaces"])

prop("C31", "Tensor product constructors flatten, collapse and reject consistently",
 "Constructing a tensor product of a single shape or space gives that shape or space itself, nested tensor products are flattened into one ordered list of components, and one-dimensional hypercubes and QN spaces are the line simplex and PN. A product with more than one non-segment factor raises NotImplementedError.",
 ["configurations"], "all nestings of shapes and spaces",
 "Tests construct two or three examples.",
 ["spaces.py", "shapes.py"], [("__new__ and __init__", "spaces.py:TensorProductSpace,QN; shapes.py:TensorProductShape,Hypercube,_HypercubeFace")],
 ["type and bases of the constructed object"])

prop("C32", "Shapes and spaces survive copying and pickling, and shapes stay immutable",
 "Every shape, face and space object can be copied, deep-copied and pickled, and the result has the same type and components as the original. Shapes and faces are immutable: no attribute can be assigned after construction. Equality and hashing of shapes are by value.",
 ["configurations"], "all shapes, faces and spaces",
 "Tests pickle simplices and hypercubes of some dimensions only.",
 ["shapes.py", "spaces.py"], [("__new__/__getnewargs__ protocol and frozen dataclasses", "shapes.py, spaces.py")],
 ["copy, deepcopy, pickle round trips; attribute assignment"])

prop("C33", "The coordinate systems of the simplex map onto each other exactly",
 "The equilateral-to-unit maps send the tabulated equilateral vertices to the unit vertices in order, exactly; barycentric_to_unit, unit_to_barycentric and barycentric_to_equilateral are mutually consistent, with barycentric coordinate 0 belonging to the vertex at (-1,...,-1). An affine map applied to x is A x + b for single points and batches, its inverse undoes it and its Jacobian is det A.",
 ["inputs"], "dimensions 1-3, all points, all affine maps",
 "Tests check round trips at random points for dimension 2 and 3 to tolerance.",
 ["tools.py", "shapes.py"], [("tables", "tools.py:EQUILATERAL_TO_UNIT_MAP,EQUILATERAL_VERTICES"), ("maps", "tools.py:AffineMap,barycentric_to_unit,unit_to_barycentric,barycentric_to_equilateral")],
 ["return values"])

prop("C34", "Unreshape inverts reshape for tensor product arrays on every axis",
 "For every tensor product space, array and valid axis (negative axes counting from the end of the unreshaped array), reshaping replaces the axis of length space_dim by one axis per component in component order, with the first component's index varying fastest, and unreshaping with the same axis restores the original array. Other spaces leave the array unchanged.",
 ["inputs"], "all spaces, array ranks and axes",
 "Tests cover dimensions 1-3 and some axes.",
 ["tools.py"], [("reshape", "tools.py:reshape_array_for_tensor_product_space,unreshape_array_for_tensor_product_space")],
 ["returned arrays"])

prop("C35", "Monomial evaluation, integrals and derivatives are mutually consistent",
 "A Monomial evaluates to factor times the product of ((x_i+1)/2)^e_i; diff(i) lowers exponent i by one and multiplies the factor by the old exponent (giving the zero function for exponent 0); simplex_integral and hypercube_integral are linear in the factor and equal factor times 2^n prod(e_i!)/(n+sum e)! and factor times prod 1/(e_i+1) respectively.",
 ["inputs"], "all exponents, factors and points",
 "Tests use factor 1 only and small exponents.",
 ["tools.py"], [("Monomial", "tools.py:Monomial")],
 ["return values"])

prop("C36", "Modal degree vectors and interpolation error estimators select the tail modes",
 "degree_vector lists, in mode order, the total degree of each mode for simplex bases and the maximum of the component degrees for tensor product bases, and raises TypeError otherwise. The interpolation error estimator consists of exactly those rows of the inverse Vandermonde matrix whose mode degree exceeds the maximum degree minus the number of tail orders.",
 ["inputs"], "all bases, node sets and tail orders",
 "Tests use one or two tail orders on equal-order bases.",
 ["modal_decay.py"], [("degree vectors", "modal_decay.py:degree_vector_simplex,degree_vector_tp"), ("row selection", "modal_decay.py:interp_error_coefficient_estimator_matrix")],
 ["return values"])

prop("C37", "Linear combinations and orthogonalised bases evaluate to the stated sums",
 "A linear combination evaluates to the sum of coefficient times function; combining linear combinations over a common basis gives the same function as the nested combination; orthogonalize_basis returns the rows of the inverse Cholesky factor of the Gram matrix applied to the leading basis functions. Weights found by undetermined coefficients solve V^T w = integrals, rejecting a mismatched number of integrals with ValueError.",
 ["inputs"], "all coefficient arrays and function lists",
 "Tests combine as many functions as basis elements.",
 ["quadrature/construction.py"], [("combination", "quadrature/construction.py:LinearCombinationIntegrand,linearly_combine"), ("Gram matrix", "quadrature/construction.py:_mass_matrix,orthogonalize_basis"), ("weights", "quadrature/construction.py:find_weights_undetermined_coefficients")],
 ["values of the combined functions, weights"])

prop("C38", "The quadrature residual's derivatives match the residual",
 "quad_residual_and_jacobian returns the residual V^T w - I together with its exact derivatives with respect to the weights and to the node coordinates, the latter arranged axis by axis with nodes consecutive; the Gauss-Newton increment is the least-squares solution of the linearised system, split back into weights and node coordinates in that same arrangement.",
 ["inputs"], "all node sets, weights, integrands and their derivatives",
 "Tests run one convergence history, for which a wrong Jacobian may still converge.",
 ["quadrature/construction.py"], [("residual and Jacobian", "quadrature/construction.py:quad_residual_and_jacobian,quad_gauss_newton_increment")],
 ["returned arrays"])

prop("C39", "Public functions never modify their arguments",
 "No public function, method or callable returned by the library writes to an array, list or other mutable object passed to it, or to arrays or lists stored in such an object (rules, bases, faces, function sequences), on any path. Callers can reuse node, weight and coefficient arrays after every call.",
 ["inputs", "histories"], "all public entry points and call sequences",
 "Tests build fresh arguments for nearly every call.",
 ["matrices.py", "modes.py", "nodes.py", "shapes.py", "spaces.py", "tools.py", "modal_decay.py", "quadrature/__init__.py", "quadrature/construction.py", "quadrature/kronrod.py", "quadrature/transplanted.py", "quadrature/jacobi_gauss.py"], [("all write sites", "every assignment to subscripts/attributes, augmented assignment and mutating method call in modepy")],
 ["contents of argument objects after the call"])

prop("C40", "Shared tables and cached arrays cannot be corrupted through returned objects",
 "No object handed to the caller gives write access to state shared between calls: module-level tables are never written after import, arrays, lists and dictionaries inside them are copied (or recomputed) before being returned or stored in a returned object, and mutable results kept by caching functions or in module-level caches are made read-only or copied before they are handed out. Two calls with equal arguments therefore give equal results whatever the caller did with the first result. (Values an object caches for itself, such as the inverse kept by an AffineMap, are not meant.)",
 ["histories"], "all sequences of calls with arbitrary modification of returned arrays in between",
 "Tests never modify a returned array and call again.",
 ["nodes.py", "shapes.py", "tools.py", "matrices.py", "quadrature/__init__.py", "quadrature/kronrod.py", "quadrature/witherden_vincent.py", "quadrature/vioreanu_rokhlin.py", "quadrature/xiao_gimbutas.py", "quadrature/jaskowiec_sukumar.py", "quadrature/transplanted.py"], [("escape of module-level arrays", "all reads of module-level mutable globals"), ("cached arrays", "functions decorated with lru_cache/memoize")],
 ["results of repeated calls"],
 [("module-level tables", "literal data shared by all calls", "quadrature/*_data.py, tools.py, nodes.py, shapes.py"), ("cached Kronrod arrays", "arrays returned by every call for the same order", "quadrature/kronrod.py:kronrod")])

prop("C41", "The Lebesgue constant is the maximal row sum of the interpolation operator",
 "estimate_lebesgue_constant returns the maximum, over a fine equispaced evaluation grid on the shape, of the sum of absolute values of the interpolation operator's rows, i.e. of V_eval V_nodes^-1 for the basis of the given order, and raises ValueError when the nodes' dimension differs from the shape's.",
 ["inputs"], "all orders, shapes and node sets",
 "Tests compare against loose upper bounds.",
 ["tools.py"], [("evaluation", "tools.py:_evaluate_lebesgue_function,estimate_lebesgue_constant")],
 ["returned number"])

prop("C42", "One-dimensional rules honour the requested node array layout",
 "For every one-dimensional rule or node set, force_dim_axis=True gives nodes of shape (1, n) and force_dim_axis=False nodes of shape (n,), with n weights in both cases and identical node values, for every order and back end; the dimension attribute is 1 either way.",
 ["configurations"], "all one-dimensional rules and Gauss-Lobatto node sets, all orders, both settings",
 "Tests use force_dim_axis=True nearly everywhere and skip the smallest orders.",
 ["quadrature/jacobi_gauss.py", "quadrature/clenshaw_curtis.py", "quadrature/transplanted.py", "quadrature/__init__.py"], [("reshape on every path", "constructors and jacobi_gauss_lobatto_nodes")],
 ["shape of nodes and weights"])

prop("C43", "Numerical accuracy of eigenvalue- and FFT-based constructions",
 "For every supported order, the nodes and weights delivered by the eigenvalue-based Gauss and Kronrod constructions and the FFT-based Clenshaw-Curtis and Fejer constructions agree with the exact rules to within a modest multiple of machine precision, and the residual assertions inside the constructions do not fail.",
 ["inputs"], "all orders and parameters",
 "Tests sample small orders.",
 ["quadrature/jacobi_gauss.py", "quadrature/kronrod.py", "quadrature/clenshaw_curtis.py"], [("eigensolvers, Newton refinement, FFT", "quadrature/*.py")],
 ["nodes and weights"])

prop("C44", "Modal decay fits are least-squares lines through the skyline of the modes",
 "skyline_pessimize replaces, element by element, each modal value by the largest value of its element from that mode on, the last mode counting as no smaller than the one before it. fit_modal_decay returns, for each element independently of the others, exponent and constant of the least-squares fit constant * k**exponent, in logarithms over the total degrees k of the modes not ignored, to the skyline of the coefficients regularised by the documented decay baseline scaled with the element's norm. The relative expansion residual is the constant times the square root of the integral of x**(2 exponent) from n+1 on, divided by the element's coefficient norm, with values greater than one set to zero.",
 ["inputs"], "all coefficient arrays, dimensions and orders",
 "One test file samples a few step and smooth functions with tolerances on the rounded exponent.",
 ["modal_decay.py"], [("fit", "modal_decay.py:fit_modal_decay,skyline_pessimize,estimate_relative_expansion_residual")],
 ["returned exponents and residuals"])

prop("C45", "The infinite degree of exactness orders above every finite number",
 "The degree of exactness of a rule that integrates everything exactly is an infinity that compares greater than every finite number with the number on either side of the comparison, equals only itself, stays infinite when a finite number is added to it, is never chosen by a minimum that also has a finite degree to choose from (in any position), and is not accepted as an index. isinf tells it from the finite degrees.",
 ["inputs"], "all finite numbers and both operand orders",
 "One test compares a handful of fixed values; sums, minima and reflected comparisons with arbitrary numbers are not looked at.",
 ["quadrature/__init__.py"], [("infinity", "quadrature/__init__.py:_Inf,isinf,inf")],
 ["comparison results, sums and minima"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for d in P:
            f.write(json.dumps(d) + "\n")
    print(len(P), "properties")
