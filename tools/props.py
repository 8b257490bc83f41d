"""Writes properties.jsonl (run once; the result is committed)."""
import json

P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, id
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": ["symfem/" + f for f in files],
                          "mechanism": [{"name": n, "where": "symfem/" + w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})


p("M01", "Maps between the default cell and any other cell are right and invertible",
  "For every cell type and every set of vertices, the map from the default cell to the cell with those vertices "
  "interpolates the vertices with the cell's lowest-order shape functions (the affine map on affine cells). "
  "For every non-degenerate affine cell, including cells embedded in a higher-dimensional space, the inverse map "
  "undoes it, and the Jacobian that integration uses is the volume scaling of that map.",
  ["inputs"], "all real vertex coordinates, all cell types, all supported geometric dimensions",
  "Tests map a handful of fixed cells; a wrong coefficient only shows for a vertex position, orientation or "
  "embedding that none of them uses.",
  ["references.py"],
  [("forward and inverse maps, jacobian of every cell class", "references.py: get_map_to, get_inverse_map_to, "
    "get_map_to_self, _compute_map_to_self, _compute_inverse_map_to_self, jacobian")])

p("M02", "Push-forward maps preserve what they are defined to preserve",
  "For every smooth function and every non-degenerate affine cell, the identity, covariant Piola, contravariant Piola, "
  "double covariant and double contravariant maps (and their l2, inverse-transpose and inverse variants) give the "
  "mathematically defined push-forward of the function: tangential line integrals, normal fluxes, "
  "tangent-tangent and normal-normal moments computed on the physical cell are those of the reference function. "
  "Mapping and then mapping back returns the original function.",
  ["inputs"], "all functions (uninterpreted), all non-degenerate affine maps with real coefficients, all supported dimensions",
  "Tests compare the result of mapping for a few cells with a few polynomials; the identities have to hold for "
  "every function and every map.",
  ["mappings.py"], [("identity, l2, covariant, contravariant, double_covariant, double_contravariant and their "
                     "*_inverse_transpose / inverse maps", "mappings.py")])

p("G01", "Point location agrees with the geometry of the cell",
  "Asking whether a cell contains a point, or whether a point is at a vertex, on an edge or on a face of it, is answered yes "
  "exactly when the point lies in the (closed) cell or on that sub-entity. A piecewise function chooses a piece "
  "that contains the point, and refuses points outside all its pieces; the intersection of two cells is found "
  "exactly when they share points in the way the function documents.",
  ["inputs"], "all real points, all non-degenerate cells with real vertices",
  "Tests ask about a few points of the default cells; wrong answers depend on the orientation and shape of the "
  "cell and on points just outside one particular side.",
  ["geometry.py", "references.py", "piecewise_functions.py"],
  [("point_in_*", "geometry.py"), ("contains, at_vertex, on_edge, on_face, intersection", "references.py"),
   ("get_piece", "piecewise_functions.py")])

p("G02", "Sub-entities, sizes, normals, tangents and point lattices of cells are right",
  "For every cell type the listed sub-entities are exactly the cell's vertices, edges, faces and volumes; volumes, unit tangents, "
  "unit normals, midpoints and points given in local axes are those of the cell with the given vertices. "
  "Lattices contain exactly the equally spaced points of the requested resolution in (or strictly in) the cell, and their "
  "lines join neighbouring lattice points.",
  ["inputs"], "all real vertex coordinates of affine cells, all cell types; all lattice sizes up to the stated bound",
  "Tests check the default cells and a few sizes; degenerate-looking orientations, embeddings and larger lattices are not sampled.",
  ["references.py"],
  [("sub_entities, sub_entity, volume, normal, tangent, midpoint, get_point, integration_limits, make_lattice*", "references.py")])

p("F01", "Function arithmetic means pointwise arithmetic",
  "For scalar, vector, matrix and basis functions, the result of every arithmetic, product, indexing, comparison and substitution operation "
  "is the function whose value at every point is the corresponding operation on the values of the operands; substitution is simultaneous. "
  "Operands whose shapes do not match are refused, never truncated or silently combined.",
  ["inputs"], "all functions (arbitrary expressions) and all operand kinds each operation accepts, shapes up to the stated bound",
  "Tests apply each operation to a few polynomials; wrong signs, swapped indices or dropped components show only for "
  "non-symmetric, non-square or mixed-kind operands.",
  ["functions.py", "basis_functions.py"],
  [("operators, dot, cross, det, transpose, subs, __getitem__", "functions.py, basis_functions.py")])

p("F02", "Derivatives and integrals of functions are the mathematical ones",
  "Partial, directional, gradient, divergence, curl and Jacobian operations on a function return the mathematical derivative "
  "for every function. The integral of a scalar function over a cell is the integral over that cell with respect to its own measure, for every "
  "affine cell in any embedding, in whichever variables the caller names.",
  ["inputs"], "all smooth functions (uninterpreted), all affine cells with real vertices, all cell types",
  "Tests differentiate and integrate a few polynomials over default or fixed cells.",
  ["functions.py", "references.py"],
  [("diff, directional_derivative, jacobian, grad, div, curl, norm, integral", "functions.py"),
   ("integration_limits, jacobian", "references.py")])

p("F03", "Piecewise functions behave piece by piece",
  "Every operation on a piecewise function (arithmetic, products, derivatives, substitution, mapping, integration) acts on each piece "
  "separately and keeps each result on the right piece; integrals add up over the pieces. Combining piecewise functions with different "
  "pieces is refused.",
  ["inputs"], "all piecewise functions with arbitrary expressions on up to the stated number of pieces",
  "Tests exercise two or three macro elements whose pieces hide mistakes by symmetry.",
  ["piecewise_functions.py"],
  [("PiecewiseFunction operators, diff, integral, map_pieces, subs", "piecewise_functions.py")])

p("D01", "Degree-of-freedom functionals evaluate their definitions",
  "Each functional (point evaluations, derivatives, components, moments, tangent, normal and inner-product moments, ...) returns for every "
  "function the number its definition states on its entity, and is linear in the function. Moments against a space use the dual basis of that "
  "space on every entity.",
  ["inputs"], "all smooth functions (uninterpreted), all functionals of the library on the sub-entities of every cell type that supports them",
  "Tests check functionals through the elements of low degree; a functional that is wrong on some entity or some function is "
  "compensated by the inversion of the dual matrix.",
  ["functionals.py", "moments.py"],
  [("eval of every functional, dof_point, dof_direction, entity bookkeeping", "functionals.py"),
   ("make_integral_moment_dofs", "moments.py")])

p("E01", "Basis functions are the dual basis of the declared degrees of freedom",
  "For every element, applying its i-th degree of freedom to its j-th basis function gives 1 if i equals j and 0 otherwise, and the basis functions "
  "span the declared polynomial space. This holds for every user-defined element whose functionals are unisolvent.",
  ["configurations", "inputs"], "all elements of the registry on all their cells, degrees up to the stated bound and every variant; user-defined "
  "elements with arbitrary (symbolic) unisolvent functional values",
  "Tests check a subset of elements at the lowest degrees and never a symbolic dual matrix.",
  ["finite_element.py", "elements", "functionals.py"],
  [("get_dual_matrix, get_basis_functions", "finite_element.py"), ("element definitions", "elements/*.py")])

p("E02", "Every degree of freedom belongs to its entity and gives the declared continuity",
  "The per-entity lists partition the degrees of freedom by the sub-entity each is attached to, and agree with the plots' and the point and direction metadata. "
  "Traces on an entity of basis functions whose degree of freedom does not belong to the entity's closure vanish in the sense of the element's declared continuity, so that "
  "gluing neighbouring cells by shared degrees of freedom gives that continuity.",
  ["configurations"], "all elements of the registry on all their cells, degrees up to the stated bound and every variant",
  "Tests check continuity for one pair of neighbouring cells at low degree.",
  ["finite_element.py", "elements"],
  [("entity_dofs, dof_entities, continuity", "finite_element.py"), ("element definitions", "elements/*.py")])

p("E03", "Mapped and composed elements are what their parts say",
  "The basis functions on another cell are the push-forwards of the reference basis by the declared map, both as a whole and for each part of "
  "a composed (enriched) element; for affine cells they are dual to the same functionals on that cell where the element promises it. "
  "Composed elements list their parts' functions and degrees of freedom in order.",
  ["inputs", "configurations"], "all non-degenerate affine target cells with symbolic vertices, representative elements of every mapping",
  "Tests map one or two elements to one or two fixed cells.",
  ["finite_element.py", "basis_functions.py", "functionals.py"],
  [("map_to_cell, EnrichedElement, DirectElement", "finite_element.py")])

p("E04", "Tabulation returns the values of the basis functions in the requested layout",
  "Tabulating at a set of points gives, in each of the documented layouts, the value of each component of each basis function at each point, "
  "for every number of points, functions and components, and independent of what was computed before.",
  ["inputs"], "all points (symbolic), all layouts, all value shapes",
  "Tests tabulate one or two elements, in which counts of points, functions or components coincide.",
  ["finite_element.py"], [("tabulate_basis, tabulate_basis_as_array", "finite_element.py")])

p("E05", "Tensor-product factorisations reproduce the basis",
  "For every element that offers a tensor-product factorisation, multiplying its factors and applying its permutation gives the element's basis functions, "
  "whatever variant was requested and in whatever order the basis was asked for.",
  ["configurations", "histories"], "all elements that offer it, degrees up to the stated bound, every variant, every order of calls",
  "Tests compare the default variant at low degree, and never ask twice in different ways.",
  ["finite_element.py", "elements/q.py", "elements/lagrange.py"],
  [("get_tensor_factorisation, _get_basis_functions_tensor, get_basis_functions", "finite_element.py")])

p("P01", "Polynomial set generators span exactly the spaces they name",
  "Each polynomial set generator returns linearly independent functions of the stated domain dimension and value shape that span exactly the named space: complete, tensor-product, "
  "rational, serendipity, Nedelec, Raviart-Thomas, H(div) and H(curl) families.",
  ["inputs"], "all domain dimensions and all degrees (generic degree where the proof reaches, otherwise up to the stated bound)",
  "Tests check counts or a few low degrees.",
  ["polynomials/polysets.py"], [("polynomial_set_1d/vector, quolynomial_set_*, Hdiv_*, Hcurl_*, serendipity_set_*, prism and pyramid sets", "polynomials/polysets.py")])

p("P02", "Declared polynomial degrees bound the functions",
  "For every element the declared embedded degrees are true: the largest complete (and Lagrange) spaces declared to be contained are contained, and those declared to "
  "contain the element do contain it, with tightness. The maximum degree reported for a function is its true degree on the cell.",
  ["configurations", "inputs"], "all elements of the registry, degrees up to the stated bound; all polynomials for the reported degree of a function",
  "Tests check these at the lowest degrees, and skip many elements.",
  ["finite_element.py", "functions.py", "elements"],
  [("lagrange_subdegree, lagrange_superdegree, polynomial_subdegree, polynomial_superdegree, maximum_degree", "finite_element.py, functions.py, elements/*.py")])

p("P03", "Orthogonal and dual polynomial bases have their defining properties",
  "The orthogonal bases on each cell are orthogonal (orthonormal where stated) and span the complete space of the stated degree in a fixed documented order; "
  "Lobatto functions vanish on the boundary as defined and the dual basis is dual to the functions it is built from.",
  ["inputs"], "all cells and degrees (recurrences for a generic degree where the proof reaches, otherwise up to the stated bound)",
  "Tests check low degrees only.",
  ["polynomials/legendre.py", "polynomials/lobatto.py", "polynomials/dual.py"],
  [("orthogonal_basis, orthonormal_basis, recurrences", "polynomials/legendre.py"), ("l2_dual", "polynomials/dual.py"), ("lobatto_basis", "polynomials/lobatto.py")])

p("Q01", "Quadrature rules are exact to their nominal degree",
  "Every quadrature rule has points in the cell, weights summing to its size, and integrates exactly every polynomial up to the degree its family promises "
  "(equispaced, Legendre, Radau, Lobatto; Gauss rules with the optimal degree), including the end points the family includes.",
  ["inputs"], "all numbers of points the library offers",
  "Tests check symmetry or a subset.",
  ["quadrature.py"], [("equispaced, lobatto, radau, legendre, get_quadrature", "quadrature.py")])

p("K01", "The on-disk matrix cache never changes a result",
  "Whatever the history of earlier runs, crashes in the middle of writing, or concurrent writers, loading from the cache gives either nothing or exactly the matrix that was saved "
  "for the same element, so the computed basis functions are the same with and without a cache.",
  ["crash_points", "histories", "inputs"], "all rational matrices, all prefixes of the write as crash points, all pairs of different elements",
  "Tests only load what a complete, uninterrupted run of the same process saved.",
  ["caching.py", "finite_element.py"], [("save_cached_matrix, load_cached_matrix, matrix_to_string, matrix_from_string", "caching.py"), ("get_dual_inverse", "finite_element.py")])

p("R01", "The registry gives the element that was asked for, or refuses",
  "Every registered name on every cell it supports gives an element of that family, cell, degree and variant; two names for one family give the same space; "
  "an unknown name, cell or unsupported degree is refused with an error rather than answered with another element.",
  ["inputs", "configurations"], "all registered names and cells; all integer degrees (symbolic) for the range checks",
  "Tests create known-good combinations only.",
  ["create.py", "elements"], [("create_element, create_reference, add_element", "create.py"), ("min_order, max_order, references, names", "elements/*.py")])

p("V01", "Pictures show the coordinates they are given",
  "Whatever is drawn ends up, in every output format, at the image of its coordinates under one fixed scaling and projection, "
  "and nothing that was drawn lies outside the canvas.",
  ["inputs"], "all real coordinates; all sequences of drawing calls up to the stated length",
  "Tests only check that plotting does not crash and one-off strings.",
  ["plotting.py"], [("Picture, to_2d, compute_scale, as_svg, as_tikz", "plotting.py")])

with open("/verif/properties.jsonl", "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
print(len(P))
