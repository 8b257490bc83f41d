import json
M=[("M01","3930b78","the inverse map of a triangle embedded in three dimensions did not undo the map"),
("M01","c323221","the inverse map to a quadrilateral used the dimension of the wrong cell"),
("M01","f29c0f3","the map to a pyramid did not take the default vertices to its vertices / disagreed with its inverse"),
("G01","6cf828a","a non-default tetrahedron contained points beyond its last face and not its own points"),
("G01","ca4546f","points on the line through an edge but beyond its ends were reported on the edge"),
("G01","a9c9f90","points off a face were reported on it (and points on it were not)"),
("G01","86e9980","no point was found inside a quadrilateral whose vertices run clockwise"),
("M02","8564764","covariant maps into a higher-dimensional space dropped components"),
("F01","c8230b8","vector times non-square matrix was wrong"),
("F01","92dd6a7","the dot product of non-square matrices ran over only some of their entries"),
("F01","bbdbef0","iterating through a vector function twice at a time skipped components"),
("F01","090a1f4","lists of the wrong length were truncated when added to vector and matrix functions"),
("F02","fc7b7d6","the integral over a point failed or was not a function"),
("P02","d306bdb","the degree reported for a polynomial on simplices and prisms was not its degree"),
("F01","1cb525e","the norm of a basis function raised or returned nothing"),
("F03","937ee6b","dot and cross products of piecewise functions did not go piece by piece"),
("F03","af9d833","piecewise functions with different numbers of pieces were combined"),
("G02","6fe1b3b","the lattice of an interval not of unit length did not fill it"),
("G02","3997af8","the interior lattice of a prism contained points of its boundary"),
("P01","0bea9ab","the serendipity H(div) and H(curl) spaces on a quadrilateral were not spanned by the curls and gradients that define them"),
("P01","5315cae","the H(curl) serendipity set ignored the given variables"),
("P01","b5cedad","the H(div) serendipity set ignored the given variables"),
("F03","9225b70","a piecewise function given values for some of its variables was evaluated on one piece"),
("F03","bcc8d52","basis functions that are piecewise were not compared piece by piece"),
("F03","5d14e8f","a facet shared by two pieces was counted twice in the integral of a piecewise function"),
("D01","45ea8dd","moments of functions whose pieces hold only part of the domain were wrong"),
("D01","c42b05b","the direction of a moment was evaluated at a point in the wrong coordinates, and could be zero"),
("F01","36dbcef","a matrix-valued basis function could not be multiplied by a vector"),
("D01","3d67663","the divergence of a basis function could not be evaluated at a point"),
("E04","022f5c2","tables of the two-component Alfeld-Sorokina element ignored the requested layout"),
("E05","59c8da5","the tensor factorisation of Q ignored its variant and its cell"),
("K01","96a18e0","matrices with floating-point or root entries did not come back from the cache as saved"),
("K01","b9a3a1e","a partly written cache file was loaded as a matrix"),
("K01","80a505c","elements with the same class name, or cells that print alike, shared a cached matrix"),
("E01","e37a574","the Kong-Mulder-Veldhuizen space on a tetrahedron was not the one its functionals determine"),
("E03","ed44219","the legendre variant of vector Lagrange did not integrate the components on cells other than the default one"),
("E01","9b332ad","the legendre variant of the bubble enriched vector Lagrange element could not be built"),
("E01","6ba9947","the legendre variant of matrix Lagrange elements could not be built (singular)"),
("R01","8070f52","Crouzeix-Raviart elements of even order were offered, and failed when used (singular)"),
("E03","9523f9a","mapping an enriched element with a given basis gave too many functions"),
("E01","245dad3","the Bernstein element of order 4 and above on a tetrahedron had fewer functionals than polynomials"),
("E02","91b8915","degrees of freedom of direct elements were placed outside the entities they belong to"),
("E02","f553a46","degrees of freedom of direct elements with many interior functions were placed on the boundary of the cell"),
("V01","c2b4599","a picture saved under several names was written to the first only"),
("E02","06180dd","the interior functions of ABF, BDDF, BDFM and BDM had normal components on the facets of the cells they were mapped to"),
("E02","4987529","the interior and face functions of the TNT and trimmed serendipity H(curl) and H(div) elements were mapped so that the mapped space was not conforming"),
("E02","4d94b37","the interior functions of the nonconforming Arnold-Winther and Huang-Zhang elements were mapped by the identity"),
("E01","d76ee65","the BDFM space on a tetrahedron (order 2 and above) was not the space of functions with normal components of degree order - 1"),
("E02","53e4586","the enriched Galerkin, Morley-Wang-Xu and Wu-Xu (tetrahedron) elements were declared continuous"),
("E02","bf409fc","the direction of an interior functional of TNT on a hexahedron was a tuple of functions"),
("E02","803aeec","the direct serendipity elements of order 4 and above had the interior functions of another degree"),
("E02","f1cad55","direct serendipity functions of an edge were not zero on the opposite edge"),
("R01","fe45cf9","bubble enriched elements of order 3 and above were offered, and failed when used (singular)"),
("E01","a582b7f","the legendre variant, and the lobatto variant from order 3, of vector Q could not be built (singular)"),
("E02","7ea7961","elements of degree 0 and the legendre variants of Lagrange and Q elements were declared continuous"),
("P02","65df055","the declared polynomial superdegree of the TNT H(curl) elements was not the degree of the smallest space that contains them"),
("P02","b776b62","the pyramid Lagrange element of order 0 declared no polynomial superdegree"),
("V01","59c5573","the control points of a Bezier curve were left out of the size of the picture"),
("P02","6f8a6ec","the declared Lagrange subdegree of the trimmed serendipity elements was wrong (too large for H(curl) of order 6 on a hexahedron, too small for order 7 on a quadrilateral)"),
("R01","b2b7ca3","the trimmed serendipity H(curl) elements of order 4 and above on a hexahedron could not be built"),
]
json.dump({"known":[],"fixed":[f"fixed: property={a} {b} {c}" for a,b,c in M]},open("/verif/known_findings.json","w"),indent=1)
