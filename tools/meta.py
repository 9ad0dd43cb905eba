"""Property metadata: one place from which properties.jsonl and MANIFEST.json
are generated (python3 tools/gen.py)."""

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text,
                  why=why, files=files, mechanism=mechanism, observe=observe, note=note))


prop(
    "C01",
    "Mesh entities are complete, unique, tagged and consistently linked",
    "A mesh read from a conforming simplicial gmsh file contains every vertex, edge, face and cell of the complex exactly once, with the point coordinates, the node order of the given cells and the physical tag the file gives each entity (and no tag where it gives none); tags are numbered per dimension. Every entity lists its sub-entities of each dimension in the reference order of the simplex. Topology queries (entities per dimension or co-dimension, restricted to any set of physical tags; upward, downward and co-dimension neighbours) return exactly the entities the complex contains.",
    ["inputs"], "every conforming simplicial mesh in 1D/2D/3D, any vertex numbering, node order, block order and tag assignment, and every subset of physical tags",
    "Tests read a handful of meshes and count entities; they never vary numbering, node order or tags of lower-dimensional entities.",
    ["src/mesh/mesh.py", "src/mesh/mesh_cell.py", "src/mesh/mesh_topology.py", "src/mesh/topological_queries.py"],
    [("entity insertion with sorted-node dictionaries", "src/mesh/mesh.py"), ("cell graph with co-dimension-1 edges", "src/mesh/mesh.py"), ("graph searches", "src/mesh/topological_queries.py")],
    ["Mesh.cells", "Mesh.points", "MeshTopology.entities_by_dimension", "find_higher_dimension_neighs", "find_lower_dimension_neighs", "sub_entity_by_co_dimension"],
    "Random meshes (templates x dropped cells x renumbering x node order x tags) against an independently enumerated complex.",
)
prop(
    "C02",
    "Cell mapping, measure, inverse Jacobian, mesh size and quadrature are exact",
    "For every simplex of dimension 1 to 3, flat or embedded in R^3 and at any length scale, reference points map to the barycentric combination of its vertices, the Jacobian is its edge matrix, the determinant is d! times its measure and the inverse Jacobian is the Moore-Penrose inverse; diameters, centroids and mesh sizes (global or per physical tag) equal their definitions. The quadrature a product space provides for cells and for boundary facets integrates every polynomial of degree up to twice its highest order plus one exactly.",
    ["inputs"], "every non-degenerate simplex, every reference point, every combination of field orders, every monomial within the degree bound",
    "Tests evaluate a few fixed cells; exactness over geometry, embedding, scale and polynomial degree needs search.",
    ["src/geometry/mapping.py", "src/geometry/compute_normal.py", "src/basis/finite_element.py", "src/mesh/mesh_metrics.py", "src/spaces/product_space.py", "src/spaces/discrete_space.py"],
    [("evaluate_mapping", "src/geometry/mapping.py"), ("integration order = max over fields", "src/spaces/product_space.py"), ("cell_diam / mesh_size", "src/mesh/mesh_metrics.py")],
    ["FiniteElement.evaluate_mapping", "ProductSpace.quadrature", "ProductSpace.bc_quadrature", "mesh_size", "cell_centroid"],
    "Closed-form oracle (barycentric integrals, Gram determinants) on random geometry.",
)
prop(
    "C03",
    "Facet points and traces refer to the same physical points in the neighbour",
    "Reference points of any facet, transferred to any cell that contains it, denote the same physical points, whatever the node order of facet and cell. The trace of a finite element space on a facet, taken from any chosen neighbour, equals that neighbour's basis at those points, and its facet-dof restriction selects exactly the dofs attached to the facet.",
    ["inputs"], "every (facet, neighbour) pair of every mesh in 1D/2D/3D with free node orders, every point set, family and order",
    "Tests exercise traces on meshes produced with one numbering and only for the first neighbour.",
    ["src/basis/parametric_transformation.py", "src/basis/basis_trace.py", "src/mesh/topological_queries.py"],
    [("node matching between facet and cell", "src/basis/parametric_transformation.py"), ("neighbour lookup", "src/basis/basis_trace.py")],
    ["transform_lower_to_higher", "trace_product_space"],
    "Independent barycentric location of the facet points in the neighbour; basis tabulated there.",
)
prop(
    "C04",
    "Global dof numbering is a bijection shared exactly on shared entities",
    "For every product space, each field owns a contiguous block of global dofs whose size is the number of mesh entities (of the selected physical tags) times the dofs per entity times the number of components; every dof in it belongs to some cell and to exactly one mesh entity, and cells sharing an entity see the same dofs on it in the same order (discontinuous fields share none). Boundary elements sit exactly on the facets carrying the requested tags and their dofs are exactly those of the closure of the facet in the neighbouring cell. Element and boundary destination vectors of the product space are the concatenation over fields and include the dof shift.",
    ["inputs", "configurations"], "every mesh, tag selection, and combination of fields (family, order, components, continuous or not)",
    "Tests check total counts on a few meshes; sharing, coverage, tag restriction and component interleaving over all combinations are not reachable by samples.",
    ["src/spaces/dof_map.py", "src/spaces/discrete_space.py", "src/spaces/product_space.py"],
    [("entity maps and component-wise destination indices", "src/spaces/dof_map.py"), ("element creation by physical tag", "src/spaces/discrete_space.py"), ("field offsets", "src/spaces/product_space.py")],
    ["ProductSpace.n_dof", "destination_indexes", "bc_destination_indexes", "discrete_spaces_destination_indexes"],
    "Reference model: counts and sharing relation recomputed from the ground-truth complex.",
)
prop(
    "C05",
    "Lagrange fields are continuous across cells and on boundary elements",
    "Any coefficient vector of a continuous Lagrange field (any order, any number of components) defines the same value on a shared vertex, edge or face from every adjacent cell, tagged or not. The field seen through the boundary elements and their dofs equals the trace from the neighbouring cell. On every cell the Lagrange basis sums to one, its derivatives sum to zero and it is linearly independent.",
    ["inputs"], "every mesh with any node order and numbering, every order, every coefficient vector, every shared entity and every boundary facet",
    "Tests use meshes with gmsh's numbering and low orders; continuity at order three and higher in 3D depends on relative node orders that tests never vary.",
    ["src/basis/permute_and_transform.py", "src/basis/finite_element.py", "src/spaces/dof_map.py"],
    [("edge/face orientation transformations", "src/basis/permute_and_transform.py"), ("dof sharing", "src/spaces/dof_map.py")],
    ["FiniteElement.evaluate_basis", "ProductSpace.destination_indexes", "ProductSpace.bc_destination_indexes"],
    "Random coefficient vectors; values compared from all adjacent cells at random points.",
)
prop(
    "C06",
    "RT and BDM fields have continuous normal components (H(div) conformity)",
    "On any consistently oriented mesh (as gmsh writes them), any coefficient vector of an RT or BDM field in 2D or 3D, or on a line along x (at any number of points, next to any other field), has the same normal component on both sides of every interior facet, whether or not the facet carries a physical tag. Only the dofs of a facet contribute to the normal component on it, and on every cell the divergence from the tabulated derivatives integrates to the flux through its boundary.",
    ["inputs"], "every consistently oriented mesh with any numbering and node order, every order, component count, coefficient vector and facet",
    "Tests only see convergence on few meshes; a sign or permutation error on a particular face orientation can survive them.",
    ["src/basis/finite_element.py", "src/basis/permute_and_transform.py", "src/spaces/dof_map.py"],
    [("contravariant Piola push-forward and face transformations", "src/basis/finite_element.py"), ("orientation of facets", "src/basis/permute_and_transform.py")],
    ["FiniteElement.evaluate_basis", "ProductSpace.destination_indexes"],
    "Random coefficient vectors, normal jump and Gauss theorem.",
)
prop(
    "C07",
    "Nedelec fields have continuous tangential components (H(curl) conformity)",
    "Any coefficient vector of a first or second kind Nedelec field in 2D or 3D has the same tangential components on every shared facet and along every shared edge from all adjacent cells, whether or not the entity carries a physical tag. Only the dofs of an edge contribute to the tangential component along it, and the basis of every cell is linearly independent.",
    ["inputs"], "every consistently oriented mesh with any numbering and node order, every order, component count, coefficient vector, facet and edge",
    "The tests never compare traces between cells; a wrong face or edge transformation shows only for particular relative orientations.",
    ["src/basis/finite_element.py", "src/basis/permute_and_transform.py", "src/basis/element_family.py", "src/spaces/dof_map.py"],
    [("covariant Piola push-forward and edge/face transformations", "src/basis/finite_element.py"), ("family selection", "src/basis/element_family.py")],
    ["FiniteElement.evaluate_basis", "ProductSpace.destination_indexes"],
    "Random coefficient vectors, tangential jump from all adjacent cells.",
)
prop(
    "C08",
    "The L2 projector returns the L2-orthogonal projection at every scale",
    "For every product space and every mesh scale, the L2 projector returns one coefficient vector whose fields are the L2-orthogonal projections of the given functions: functions contained in a field's space are reproduced exactly, and for any other the error is orthogonal to every basis function. Fields may live on tagged cells of any dimension. The result is linear in the data, does not depend on the linear solver selected, and leaves the space's dof shift as it was.",
    ["inputs"], "every mesh and length scale, family, order, number of components, continuity, tag selection, combination of fields and polynomial data",
    "Tests project one function on unit-size meshes with a coarse tolerance; small meshes, several fields and tag selections need search.",
    ["src/postprocess/projectors.py", "src/weak_forms/l2_projector_weak_form.py", "src/assembly/SequentialAssembler.py"],
    [("mass matrix assembly and scatter", "src/postprocess/projectors.py"), ("element mass matrix and load", "src/weak_forms/l2_projector_weak_form.py")],
    ["l2_projector"],
    "Independent quadrature; reproduction of members and orthogonality of the error.",
)
prop(
    "C09",
    "Error and norm functionals equal the integrals they are named after",
    "l2_error, l2_error_projected, l2_norm, grad_error, div_error, div_scaled_error, div_norm, devia_l2_error and devia_l2_norm return, for every field that is not skipped (in field order), the square root of the integral over the field's cells of the squared quantity they name, summed over all components. The deviatoric variants subtract the mean trace over the domain divided by the dimension. The divergence functionals concern the RT and BDM fields, on lines too. A dof shift of the coefficient vector is honoured, and fields of all dimensions may be combined (on points the integral is the sum).",
    ["inputs"], "every mesh, field combination, order, component count, coefficient vector, polynomial data, skip list and tag selection",
    "Tests use these functionals to measure convergence rates with loose thresholds, which a missing component or factor survives.",
    ["src/postprocess/l2_error_post_processor.py", "src/postprocess/solution_norms_post_processor.py"],
    [("element loops with quadrature per co-dimension", "src/postprocess/l2_error_post_processor.py"), ("norms", "src/postprocess/solution_norms_post_processor.py")],
    ["l2_error", "l2_error_projected", "grad_error", "div_error", "div_scaled_error", "devia_l2_error", "l2_norm", "div_norm", "devia_l2_norm"],
    "Independent integration (own geometry, higher quadrature) and numerical differentiation.",
)
prop(
    "C10",
    "Facet normals are unit, orthogonal to the facet and point out of the cell",
    "For every cell and every facet of it, in one, two and three dimensions and for any node order, position, orientation in space and shape of the simplex, normal(mesh, cell, facet) is a unit vector orthogonal to the facet and tangent to the cell, pointing from the cell to the outside.",
    ["inputs"], "every non-degenerate simplex at any scale, location and orientation, every facet",
    "Tests compute a handful of normals of axis-aligned cells.",
    ["src/geometry/compute_normal.py"],
    [("cross products and the outward test", "src/geometry/compute_normal.py")],
    ["geometry.compute_normal.normal"],
    "Independent geometry (opposite vertex).",
)
prop(
    "C18",
    "The assembled residual and Jacobian are the sum of the local contributions",
    "scatter_forms adds, for every registered form and every entry of its sequence (repeats add up, in every round), the local residual and matrix into the positions given by the destination indices of that element, boundary element or pair of cells, and changes nothing else. Each form receives its element index and the entries of its coefficient vector at those positions; time dependent element forms get the pair of vectors in order and the time, time dependent boundary forms the first vector and the time.",
    ["inputs", "history"], "every space, combination of form kinds, sequence of elements, coefficient vector, dof shift and number of rounds",
    "The tests assemble one element form and one boundary form; interface and time dependent forms are not exercised.",
    ["src/assembly/SequentialAssembler.py", "src/assembly/ScatterFormData.py"],
    [("form dispatch", "src/assembly/SequentialAssembler.py"), ("gather and scatter", "src/assembly/ScatterFormData.py")],
    ["SequentialAssembler.scatter_forms"],
    "Recording stand-in forms with integer contributions against a dense sum.",
)
prop(
    "C19",
    "Scalar elliptic weak forms evaluate their stated residual and Jacobian",
    "On every element the primal Laplace, mixed Laplace, unscaled and degenerate elliptic forms and the scaled-to-physical projection return the exact local residual and Jacobian of the bilinear form and load they state, for any coefficient, porosity and right-hand side functions (including porosity that vanishes or turns negative) and any state. Their boundary forms add the penalised (primal) or natural (mixed) Dirichlet terms of the trace of the neighbouring cell to the dofs of that facet and to no other; their data may be arrays or lists of components, which they leave unmodified.",
    ["inputs"], "every mesh, element, order, flux family, coefficient function, state vector and boundary facet",
    "The tests do not run these forms at all; the examples only look at convergence rates.",
    ["src/weak_forms/laplace_primal_weak_form.py", "src/weak_forms/laplace_dual_weak_form.py", "src/weak_forms/unscaled_elliptic_weak_form.py", "src/weak_forms/degenerate_elliptic_weak_form.py", "src/weak_forms/scaled_to_physical_l2_projection.py"],
    [("primal form and penalty", "src/weak_forms/laplace_primal_weak_form.py"), ("mixed forms", "src/weak_forms/laplace_dual_weak_form.py"), ("scaling and cut-off", "src/weak_forms/degenerate_elliptic_weak_form.py")],
    ["evaluate_form of each weak form"],
    "Independent assembly with numerical gradients and own geometry.",
)
prop(
    "C25",
    "Elasticity and Cosserat weak forms evaluate their stated residual and Jacobian",
    "On every element the primal, stress-constraint, Taylor-Hood and mixed elasticity forms, the primal, mixed and scaled mixed Cosserat forms and the Riesz maps return the exact local residual and Jacobian of their constitutive and balance terms for any coefficient functions and state, and each vectorized evaluation equals the plain one at the zero state. Their boundary forms (penalised and natural Dirichlet, traction, normal displacement, penalised normal trace) contribute the stated integral of the trace of the neighbouring cell to the dofs of that facet only.",
    ["inputs"], "every mesh, element, order, stress and couple stress family, coefficient function, state vector and boundary facet",
    "The tests do not run these forms; the scripts that do compare convergence rates of the assembled problem.",
    ["src/weak_forms/le_primal_weak_form.py", "src/weak_forms/le_primal_stress_constraint_weak_form.py", "src/weak_forms/le_taylor_hood_weak_form.py", "src/weak_forms/le_dual_weak_form.py", "src/weak_forms/le_riesz_map_weak_form.py", "src/weak_forms/lce_primal_weak_form.py", "src/weak_forms/lce_dual_weak_form.py", "src/weak_forms/lce_riesz_map_weak_form.py", "src/weak_forms/lce_scaled_dual_weak_form.py", "src/weak_forms/lce_scaled_riesz_map_weak_form.py"],
    [("constitutive law and loads", "src/weak_forms/le_primal_weak_form.py"), ("vectorized mixed blocks", "src/weak_forms/lce_dual_weak_form.py"), ("boundary terms", "src/weak_forms/le_dual_weak_form.py")],
    ["evaluate_form", "evaluate_form_vectorized"],
    "Independent assembly with numerical gradients and own geometry.",
)
prop(
    "C20",
    "Assembled problems reproduce the solutions their spaces contain",
    "For every elliptic, elasticity and Cosserat problem the library states (primal, Taylor-Hood and mixed; scaled, unscaled and degenerate), when source and boundary data come from a polynomial solution that the chosen discrete spaces contain (of the potential or displacement of mixed forms, its L2 projection; the solution's boundary values on the whole boundary or, for elasticity and Cosserat problems, its tractions on any part of it, as loads of the primal forms counted with the sign of the source and as penalised normal traces of the mixed forms), assembling the form over the cells and its boundary form over the boundary elements of the product space yields a system that this solution satisfies exactly, and solving the system returns it; so it does for the part of the mesh with one material. Penalised normal displacements hold for the exact displacement, however it is moved along the facet.",
    ["inputs"], "every conforming flat simplicial mesh in 1D (elliptic problems), 2D and 3D, any node numbering and cell order, any order, flux family, material constants and polynomial solution in the spaces, any grouping of the cells into form sequences",
    "The scripts that solve problems compare convergence rates on fixed meshes; a patch test over arbitrary meshes, orders and data exercises every part of the chain (mesh, dofs, orientation, transforms, quadrature, forms, assembly) at once.",
    ["src/assembly/SequentialAssembler.py", "src/assembly/ScatterFormData.py", "src/spaces/product_space.py", "src/spaces/discrete_space.py", "src/spaces/dof_map.py", "src/basis/finite_element.py", "src/geometry/mapping.py", "src/weak_forms/laplace_primal_weak_form.py", "src/weak_forms/laplace_dual_weak_form.py", "src/weak_forms/unscaled_elliptic_weak_form.py", "src/weak_forms/degenerate_elliptic_weak_form.py", "src/weak_forms/le_primal_weak_form.py", "src/weak_forms/le_taylor_hood_weak_form.py", "src/weak_forms/le_dual_weak_form.py", "src/weak_forms/lce_primal_weak_form.py", "src/weak_forms/lce_dual_weak_form.py", "src/weak_forms/lce_scaled_dual_weak_form.py"],
    [("global assembly", "src/assembly/SequentialAssembler.py"), ("cell and boundary destinations", "src/spaces/product_space.py"), ("local forms", "src/weak_forms/laplace_dual_weak_form.py")],
    ["SequentialAssembler.scatter_forms", "WeakForm.evaluate_form", "ProductSpace.destination_indexes", "ProductSpace.bc_destination_indexes"],
    "Manufactured polynomial solutions; the oracle is the solution itself (consistency residual and solved system).",
)
prop(
    "C23",
    "Fields on cut meshes are independent across fractures, conforming elsewhere",
    "After a mesh is cut along its fractures, the spaces built on it see exactly the opened complex: cells share degrees of freedom exactly through the vertices and edges they still have in common, so fields conform over every edge that was not cut and are independent across fractures except at their tips; both sides of every fracture edge carry one boundary element whose dofs are those of the one cell on that side and give its whole trace; the field on the fracture edges has one element per edge, joined as the edges are, whose reference points map to the same physical points as those of the boundary elements of both sides; with a dof shift its dofs follow those of the bulk. Problems posed on the cut mesh with conditions on both sides of the fractures reproduce solutions that differ from part to part.",
    ["inputs"], "every conforming mesh of a box with any fracture network that can be cut (tips, crossings, T-junctions, landings on the boundary), any family, order, number of components and coefficients",
    "Tests cut two or three fixed networks and inspect mesh counts; no test builds spaces on a cut mesh.",
    ["src/mesh/mesh_operations.py", "src/mesh/mesh_cell.py", "src/mesh/mesh_topology.py", "src/mesh/topological_queries.py", "src/spaces/dof_map.py", "src/spaces/discrete_space.py", "src/spaces/product_space.py", "src/basis/finite_element.py", "src/basis/permute_and_transform.py"],
    [("clones of edges and vertices on both sides", "src/mesh/mesh_operations.py"), ("dof maps by entity id", "src/spaces/dof_map.py"), ("boundary elements by physical tag", "src/spaces/discrete_space.py")],
    ["cut_conformity_along_c1_lines", "ProductSpace.destination_indexes", "ProductSpace.bc_destination_indexes", "DiscreteSpace.bc_elements", "FiniteElement.evaluate_basis"],
    "The cut complex is derived from the mesh before the cut by union-find; dofs are compared as sets of cells sharing them.",
)
prop(
    "C11",
    "A point is reported on a segment, triangle or polygon exactly when it is",
    "For any point and any segment, triangle or simple planar polygon (convex or not) in space, the incidence and intersection functions report the point itself when it lies on the closed shape and nothing when it does not, for corners, edges, interior points, points in the plane but outside and points off the plane alike. Bulk versions return the mask of the hits and the hits in order. Sorting points along a segment orders them from its first end.",
    ["inputs"], "every segment, triangle and simple polygon, position and orientation in space, scale of order one, and every point not closer to the shape than the tolerance unless on it",
    "Tests use a dozen points against fixed shapes; special positions (on an edge extension, level with a vertex, in reflex corners, rotated planes) need search.",
    ["src/geometry/operations/point_geometry_operations.py", "src/geometry/operations/polygon_geometry_operations.py"],
    [("point-segment incidence", "src/geometry/operations/point_geometry_operations.py"), ("winding number", "src/geometry/operations/polygon_geometry_operations.py")],
    ["point_line_intersection", "points_line_intersection", "points_line_argsort", "point_triangle_intersection", "points_triangle_intersection", "point_polygon_intersection", "points_polygon_intersection"],
    "Exact rational predicates (orientation, even-odd) on lattice shapes mapped by rigid frames.",
)
prop(
    "C12",
    "Segments are reported to meet exactly where they do",
    "For two segments in space that meet in one point (crossing, touching in an end, T-shaped) the intersection functions return that point, for skew, parallel, collinear but disjoint and out-of-reach segments nothing, independently of the orientation of the segments and their order. A segment contained in the other one is returned by its two ends. The bulk versions return the points of all pairs (a segment is not intersected with itself), without repeated points when deduplication is asked for.",
    ["inputs"], "every pair and family of non-degenerate segments of order-one coordinates whose features are far apart compared with the tolerance",
    "Tests intersect a handful of segments in a few planes; collinear, touching and skew configurations in general position need search.",
    ["src/geometry/operations/line_geometry_operations.py", "src/geometry/operations/point_geometry_operations.py"],
    [("line_line_intersection", "src/geometry/operations/line_geometry_operations.py"), ("lines_lines_intersection", "src/geometry/operations/line_geometry_operations.py")],
    ["line_line_intersection", "lines_line_intersection", "lines_lines_intersection"],
    "Exact rational segment-segment intersection.",
)
prop(
    "C13",
    "Polygons are triangulated exactly and cut segments where they should",
    "Every simple planar polygon in space (convex or not, either orientation, with aligned vertices) gets a unit normal of its plane, the right convexity answer and a triangulation by its own vertices that covers it exactly once and never leaves it. A segment is intersected with a triangle or polygon where it does meet it: the crossing point, the touching point, or the first and last common point of a coplanar segment in order along the segment, and nothing when they do not meet.",
    ["inputs"], "every simple polygon, plane, orientation and segment; coplanar segments that end inside of the polygon are a listed finding",
    "Tests use one pentagon and one hexagon; the failing shapes (reflex corners, aligned vertices, parallelograms) and touching segments need search.",
    ["src/geometry/operations/polygon_geometry_operations.py", "src/geometry/operations/line_geometry_operations.py"],
    [("polygon_normal, triangulate_polygon", "src/geometry/operations/polygon_geometry_operations.py"), ("line_polygon_intersection", "src/geometry/operations/line_geometry_operations.py")],
    ["polygon_normal", "convex_q", "winding_number", "triangulate_polygon", "line_triangle_intersection", "line_polygon_intersection"],
    "Exact areas, containment and segment clipping in rational arithmetic.",
)
prop(
    "C14",
    "Fracture networks are split at every crossing and nowhere else",
    "A network of planar segments keeps every fracture with its end points and tag, splits it into consecutive pieces exactly at the points where it meets other fractures, and uses one vertex per meeting point, shared by all fractures through it and tagged with the paired tags of two of them; the graph lists exactly the incidences of the cells. In space every fracture keeps its loop and each pair of crossing convex quadrilaterals shares one immersed edge, the common segment, while pairs that do not cross share none. Pairing two tags is injective and is undone by unpairing.",
    ["inputs"], "every family of fractures without overlaps in general position in space (any order, orientation, plane, number of fractures through a point)",
    "Tests build two or three fixed networks and count cells.",
    ["src/geometry/fracture_network.py", "src/geometry/geometry_cell.py", "src/geometry/operations/line_geometry_operations.py", "src/geometry/operations/triangle_triangle_intersection_test.py", "src/geometry/operations/polygon_polygon_intersection_test.py"],
    [("intersect_1D_fractures / intersect_2D_fractures", "src/geometry/fracture_network.py"), ("intersections of pairs of segments and polygons", "src/geometry/operations/polygon_polygon_intersection_test.py")],
    ["FractureNetwork.intersect_1D_fractures", "FractureNetwork.intersect_2D_fractures", "build_grahp", "PolygonPolygonIntersectionTest.polygon_polygon_intersection", "pair_intergers", "unpair_intergers"],
    "Exact rational crossings against the cells and points of the network.",
)
prop(
    "C15",
    "Subtracting and uniting vertices splits edges exactly where the vertices lie",
    "Subtracting vertices from a domain of edges replaces every edge by the consecutive pieces between its ends and the vertices that lie on it, with unique tags and the edge's physical tag, and leaves edges without vertices untouched; uniting the result with the vertices makes the pieces share exactly the given vertices, and the graph lists exactly these incidences. Intersections of vertices and edges report the common point with the requested tag (or the shape itself) exactly if there is one. None of the operations changes its arguments.",
    ["inputs"], "every family of edges in space without overlaps, with shared or separate ends, crossings and T's, and vertices on and off them",
    "Tests split two crossing edges; chains, several vertices per edge, shared ends and tag collisions need search.",
    ["src/topology/operations/domain_operations.py", "src/topology/operations/vertex_operations.py", "src/topology/operations/edge_operations.py", "src/topology/domain.py"],
    [("domain_difference / domain_union", "src/topology/operations/domain_operations.py"), ("vertex-edge splitting", "src/topology/operations/vertex_operations.py")],
    ["domain_difference", "domain_union", "domain_intersection", "vertex_edge_intersection", "edge_edge_intersection", "vertices_edges_intersection", "build_grahp"],
    "Exact rational chains of every edge.",
)
prop(
    "C16",
    "Boxes with fractures are partitioned exactly and meshed with their tags",
    "A 2D box with fractures is partitioned exactly: one vertex per corner, fracture end inside, crossing or landing on the boundary, one edge per piece between consecutive points (clipped to the box), each with the physical tag of its side or fracture, immersed in the face, and one wire that walks around the box once. The same holds for fractures read from a file, whose sides and lines keep their pieces in order and whose vertices, tags and graph are unique and complete. Meshes made from such boxes and from the plain 1D, 2D and 3D boxes fill the box, conform, cover each tagged side, line and point with cells carrying its tag and nothing else, and honour the refinements and points per curve asked for.",
    ["inputs"], "every parallelogram (any plane for the partition) and family of fractures that do not overlap, ending inside, on the boundary, on each other or outside; every box, tag assignment, size and mesher",
    "Tests build a handful of networks inside unit squares and check counts; landings, corners, shared ends and fractures leaving the box need search.",
    ["src/topology/domain_market.py", "src/mesh/discrete_domain.py", "src/mesh/conformal_mesher.py", "src/geometry/geometry_builder.py", "src/topology/wire.py", "src/topology/shape_manipulation.py"],
    [("create_md_box_2D", "src/topology/domain_market.py"), ("build_box_2D_with_lines", "src/topology/domain_market.py"), ("transfer of domains to gmsh", "src/mesh/discrete_domain.py")],
    ["create_md_box_2D", "build_box_2D_with_lines", "read_fractures_file", "intersect_edges", "build_box_1D", "build_box_2D", "build_box_3D", "GeometryBuilder", "DiscreteDomain.generate_mesh", "ConformalMesher.generate_from_domain", "ConformalMesher.generate"],
    "Exact rational partition of box and fractures; measures and tags of the mesh read back.",
)
prop(
    "C17",
    "Cutting a mesh along fractures opens exactly the fractures",
    "Cutting a 2D mesh along fractures gives the triangles on either side of every fracture edge their own copy of it, and every vertex one copy per part into which the fractures divide the triangles around it, so free ends stay closed and crossings fall into all their sides; everything off the fractures keeps its identity, tags and points. Copies carry the requested tags of their side, interfaces list each edge with its copies by side, and all cells stay consistent (ids, nodes, sub cells). Entities of other dimensions that carry the number of the fracture's tag change nothing. Walking around the cut boundary closes. Opening the fractures to look at changes nothing but the points of the copies, and moves those of fractures that do not cross to their own side.",
    ["inputs"], "every mesh of every family of fractures with ends inside, on the boundary, on earlier cut fractures, and crossings",
    "Tests cut a few fixed networks and check that the circulation closes.",
    ["src/mesh/mesh_operations.py", "src/mesh/mesh.py"],
    [("cut_conformity_along_c1_line", "src/mesh/mesh_operations.py"), ("cut_conformity_on_fractures_mds_ec", "src/mesh/mesh.py")],
    ["cut_conformity_along_c1_lines", "Mesh.cut_conformity_on_fractures_mds_ec", "Mesh.circulate_internal_bc"],
    "The parts the ring of triangles around every vertex falls into when fracture edges are removed.",
)
prop(
    "C21",
    "Shapes compare by structure, wires follow their edges, domains find their shapes",
    "Two shapes are equal exactly if dimension, tag and, recursively, their boundary and immersed shapes agree (vertices: tag and point); a shape contains another exactly if one of its boundary or of its immersed shapes equals it, and an assigned shape equals its source, wires with orientation. A wire orients every piece of its chain of edges head to tail, whatever the direction of the edges and with split edges, and lists its vertices and end points in that order. Embedding vertices in an edge splits it in order exactly at those strictly inside it, and domains look shapes up by point and physical tag and give unique tags per dimension when retagged.",
    ["inputs"], "every chain of edges, open or closed, every numbering, nesting and single change of a complex, every set of vertices on and off an edge",
    "Tests compare a few equal and unequal shapes and orient two wires.",
    ["src/topology/shape.py", "src/topology/vertex.py", "src/topology/wire.py", "src/topology/domain.py", "src/topology/shape_manipulation.py"],
    [("structural equality and containment", "src/topology/shape.py"), ("orientation of wires", "src/topology/wire.py"), ("embed_vertex_in_edge", "src/topology/shape_manipulation.py")],
    ["Shape.__eq__", "Shape.__contains__", "Shape.shape_assignment", "Wire.orient_immersed_edges", "Wire.orient_immersed_vertices", "Wire.boundary_points", "embed_vertex_in_edge", "Domain.retag_shapes", "Domain.lookup_vertex", "Domain.shapes_with_physical_tag"],
    "Recursive structural comparison of generated complexes; the chain they were built from.",
)
prop(
    "C22",
    "Field output files hold the values of the fields",
    "VTK files written from a discrete solution hold the mesh and, for every field, of whatever dimension down to points, at each node the mean over the cells of the field's domain around it of the field's value there (zero, or nan in the variant for several spaces, at nodes outside of its domain), or for cell-centered fields its value at each centroid. Exact solutions and pointwise errors written along are the given function's values at these points and the norm of the difference. All components are written, in order. Physical tags are numbered per dimension: entities of other dimensions that carry the same numbers change nothing.",
    ["inputs"], "every mesh, family, order, number of components, continuity, coefficient vector, choice of cell-centered fields, and restriction to physical tags",
    "No test reads an output file back.",
    ["src/postprocess/solution_post_processor.py"],
    [("node_average_quatity, cell_centered_quatity and the writers", "src/postprocess/solution_post_processor.py")],
    ["write_vtk_file", "write_vtk_file_with_exact_solution", "write_fe_spaces_on_vtk_file_with_exact_solution", "write_vtk_file_pointwise_l2_error", "write_vtk_file_exact_solution"],
    "Field values per cell from the global coefficient vector, read back with meshio.",
)
prop(
    "C24",
    "Mesh output files hold the cells, tags and points of the mesh",
    "The VTK files of a mesh hold, for each dimension with tagged cells, exactly its cells that carry a physical tag, each with its nodes, tag and id, over all points of the mesh, and there is no file for other dimensions. The text dump lists the dimensions present, every point, and every cell with its type, id, tag, nodes and sub cells.",
    ["inputs"], "every mesh with any assignment of tags to entities of every dimension, also changed after reading",
    "Tests write the files and do not read them.",
    ["src/mesh/mesh.py"],
    [("Mesh.write_vtk, Mesh.write_data", "src/mesh/mesh.py")],
    ["Mesh.write_vtk", "Mesh.write_data"],
    "The mesh itself, against the files read back.",
)
prop(
    "C26",
    "Planar fractures in a 3D box are cut where they meet and meshed conformingly",
    "A 3D box built with planar fractures read from a file holds one face per fracture, and every two fractures that cross (in general position: no corner in the plane of another fracture, no edge through an edge) share one trace: the exact common segment, as one edge with a tag of its own. Boundaries and traces are cut exactly where traces end or meet, into pieces and vertices that all fractures share, one vertex per point, unique shape tags, wires that walk around each fracture once, and a complete graph. A mesh made of such a domain by either mesher fills the box with tetrahedra, covers every side and every fracture with triangles carrying its tag, those of fractures between two tetrahedra, covers every trace with edges carrying its tag, and has a tagged vertex wherever traces meet.",
    ["inputs"], "every box in any frame, family of convex planar quadrilaterals inside it in general position, order, start and orientation of their corners, tags, mesher and mesh size",
    "No test calls the builder; crossings, meeting traces and the embedding of fractures that hold traces need search.",
    ["src/topology/domain_market.py", "src/topology/shape_manipulation.py", "src/mesh/discrete_domain.py", "src/mesh/conformal_mesher.py"],
    [("build_box_3D_with_planes", "src/topology/domain_market.py"), ("intersect_faces and intersect_edges", "src/topology/shape_manipulation.py"), ("embedding in volumes", "src/mesh/discrete_domain.py")],
    ["build_box_3D_with_planes", "intersect_faces", "DiscreteDomain.generate_mesh", "ConformalMesher.generate_from_domain"],
    "Exact rational partition of the fractures; measures, tags and neighbours of the mesh read back.",
)
