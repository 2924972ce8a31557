def Q(text, *over):
    return {"over": list(over) or ["inputs"], "text": text}


def A(files, *mech):
    return {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}


PROPS = [
    dict(id="C01", title="Cell maps interpolate vertices and are inverted by the inverse maps",
         statement="For every cell type and every choice of vertices, the map to a cell sends each reference vertex to the "
                   "vertex of the same number and is affine whenever the cell is an affine image of the reference. "
                   "Composing the inverse map with the forward map gives the identity for every affine image, including "
                   "triangles, quadrilaterals and intervals embedded in higher dimensions, and mapping a polynomial set "
                   "from the default cell composes it with that inverse.",
         quantifier=Q("all cell types, all vertex positions (symbolic), embedding dimensions up to 3"),
         why_tests_cant="The tests build a handful of cells with fixed integer vertices; the identity quantifies over a "
                        "continuum of vertex positions and was false for pyramids and for triangles in 3D.",
         anchors=A(["symfem/references.py"], ("get_map_to / get_inverse_map_to", "symfem/references.py"),
                   ("get_map_to_self / get_inverse_map_to_self / map_polyset_from_default", "symfem/references.py")),
         technique="abstract interpretation (value numbering over rational-function terms)",
         level_note="Decides the identities exactly for symbolic vertices; non-affine quadrilaterals, hexahedra, prisms and "
                    "pyramids are covered for vertex interpolation only."),
    dict(id="C02", title="Reference cell topology tables and sub-entities are consistent",
         statement="For every cell type the vertices, edges, faces and volumes listed are exactly the faces of the cell, in "
                   "the documented order (lexicographic; for simplices by opposite vertices) with quadrilateral faces in "
                   "tensor-product order. A sub-entity obtained from a cell with any vertices has the shape and exactly the "
                   "vertices that the table lists, dimensions, axes, origin, default reference and equality follow from the "
                   "vertices, and drawing orders list every sub-entity once.",
         quantifier=Q("all cell types, all vertex positions (symbolic), all sub-entities"),
         why_tests_cant="Tests sample a few tables and a few sub-entities with default vertices.",
         anchors=A(["symfem/references.py", "symfem/create.py"], ("sub-entity tables", "symfem/references.py"),
                   ("sub_entity / sub_entities / default_reference / z_ordered_entities", "symfem/references.py"),
                   ("create_reference", "symfem/create.py")),
         technique="constant propagation of the cell tables against the face lattice; abstract interpretation of constructors",
         level_note="Exact for the seven polygonal cells; dual polygons are not covered."),
    dict(id="C03", title="Cell measures, frames, containment and integration match the vertices",
         statement="For every cell type and affine embedding, volume, jacobian, midpoint, tangent, normal and scaled axes are "
                   "those of the cell with its vertices, and the integral of a function over the cell is the integral of "
                   "its pull-back over the default cell times the jacobian. Containment and incidence tests are true exactly "
                   "for the points of the closed cell, edges, faces and vertices (or refuse by raising), and lattice points "
                   "are distinct points of the cell that move with it.",
         quantifier=Q("all cell types, all affine vertex positions, all integrands, all points"),
         why_tests_cant="Tests use the default cell or a few concrete cells and points.",
         anchors=A(["symfem/references.py", "symfem/functions.py"],
                   ("integration_limits / jacobian / volume / contains / normal / tangent", "symfem/references.py"),
                   ("ScalarFunction.integral", "symfem/functions.py")),
         technique="abstract interpretation over rational/square-root/integral terms; boolean terms compared on a point grid",
         level_note="Measures, frames and integrals exact for symbolic affine vertices; containment and incidence terms are "
                    "compared on a finite grid of points including the boundary, lattice sizes up to 4."),
    dict(id="C04", title="Push-forward and pull-back mappings equal their definitions",
         statement="Every mapping (identity, L2, covariant and contravariant Piola, double covariant and contravariant, and "
                   "their inverses and inverse transposes) applied to any function with any map and inverse map gives the "
                   "function defined by that transform, evaluated at the inverse-mapped point when substitution is on and "
                   "unsubstituted when it is off. Looking up a mapping by name, inverse and transpose flags returns exactly "
                   "that mapping, and unknown names are rejected.",
         quantifier=Q("all functions, all differentiable maps, dimensions 1-3"),
         why_tests_cant="Tests map a few concrete functions by a few concrete maps, with which transposes and inverses of the "
                        "Jacobian often coincide.",
         anchors=A(["symfem/mappings.py"], ("mapping functions", "symfem/mappings.py"), ("get_mapping", "symfem/mappings.py")),
         technique="abstract interpretation (global value numbering against specification terms)",
         level_note="Exact for opaque functions and maps."),
    dict(id="C05", title="Vector calculus operators equal their definitions",
         statement="For every scalar, vector or matrix function: diff, grad, div, curl, Jacobian and its components, directional "
                   "derivative, dot, cross, norm, determinant, transpose and row/column access, substitution (one variable, a "
                   "list of variables, points given as numbers, tuples or functions) and integration over given limits are "
                   "the textbook operator applied componentwise, and results have the right kind and shape.",
         quantifier=Q("all functions, all directions, all substituted values; vectors and matrices up to 3 entries per axis"),
         why_tests_cant="Tests apply the operators to a few fixed polynomials whose symmetry hides swapped indices and signs.",
         anchors=A(["symfem/functions.py"], ("ScalarFunction", "symfem/functions.py"), ("VectorFunction", "symfem/functions.py"),
                   ("MatrixFunction", "symfem/functions.py")),
         technique="abstract interpretation (global value numbering against specification terms)",
         level_note="Exact for opaque functions of x, y, z."),
    dict(id="C06", title="Function algebra, parsing, indexing and iteration are componentwise",
         statement="Sums, differences, products, quotients, powers, negation and matrix products of functions, in either operand "
                   "order and mixed with numbers, sympy expressions, lists and tuples, are computed componentwise or refused by "
                   "raising; equality holds exactly for componentwise equal functions of the same kind; parsing any accepted input "
                   "gives the function it spells; indexing, slicing, len and (nested or interrupted) iteration agree.",
         quantifier=Q("all functions and all operand kinds, in both operand orders"),
         why_tests_cant="The operator/operand-kind table has hundreds of entries, and each must hold for all functions.",
         anchors=A(["symfem/functions.py"], ("operators of ScalarFunction, VectorFunction, MatrixFunction", "symfem/functions.py"),
                   ("parse_function_input / parse_function_list_input", "symfem/functions.py")),
         technique="abstract interpretation (value numbering; operator dispatch table enumerated)",
         level_note="Exact for opaque functions; shapes up to 3x3."),
    dict(id="C07", title="Piecewise functions act piece by piece on their cells",
         statement="Every operator, derivative, substitution, indexing and equality on a piecewise function is the operation applied "
                   "to each piece on its own cell, cells are kept, operations mix piecewise and global functions in either order, "
                   "two piecewise functions are combined only when their cells agree, evaluation at a point of the interior of a "
                   "cell gives the value of that cell's piece, and integration over a cell sums the integrals over the pieces.",
         quantifier=Q("all functions on the pieces; splits of intervals, triangles, quadrilaterals and tetrahedra"),
         why_tests_cant="Tests evaluate a few macro elements only; most operators on piecewise functions are never executed.",
         anchors=A(["symfem/piecewise_functions.py"], ("PiecewiseFunction", "symfem/piecewise_functions.py")),
         technique="abstract interpretation (value numbering per piece)",
         level_note="Exact for opaque pieces on fixed splits; integration over part of a quadrilateral or interval is undecided."),
    dict(id="C08", title="Basis functions behave exactly as the function they stand for",
         statement="A basis function taken lazily from an element (and one obtained by substitution) gives, for every operator, operand "
                   "order, derivative, substitution, integral, index, iteration, shape query and comparison, the same result as the "
                   "explicit function at that index of the element's basis, and obtaining it does not compute the basis until used.",
         quantifier=Q("all basis functions (scalar, vector, matrix valued), all operations, both operand orders"),
         why_tests_cant="Tests use basis functions in a few expressions; each forwarded method is a separate chance to forward wrongly.",
         anchors=A(["symfem/basis_functions.py", "symfem/finite_element.py"], ("BasisFunction", "symfem/basis_functions.py"),
                   ("SubbedBasisFunction", "symfem/basis_functions.py"), ("ElementBasisFunction", "symfem/finite_element.py")),
         technique="abstract interpretation (value numbering; forwarding table enumerated)",
         level_note="Exact for opaque functions in the basis."),
    dict(id="C09", title="Functionals are the linear functionals their parameters define",
         statement="Every functional class applied to any function of its value kind (piecewise ones included) gives exactly the value, derivative, jump, "
                   "directional or normal component or (weighted, tangential, normal, divergence) integral that its points, directions, "
                   "entity, weight and normalisation define, on every cell and sub-entity including mapped ones, and is linear. "
                   "Its reported point, direction, adjusted point, entity, mapping and reference agree with those parameters.",
         quantifier=Q("all functional classes, all functions (opaque), all weights, all sub-entities of all cells"),
         why_tests_cant="Tests only apply functionals to the polynomials of a few elements on the default cell; a wrong jacobian, entity "
                        "frame or index order can cancel there.",
         anchors=A(["symfem/functionals.py"], ("functional classes", "symfem/functionals.py"),
                   ("eval_symbolic / dof_point / dof_direction / adjusted_dof_point", "symfem/functionals.py")),
         technique="abstract interpretation (value numbering over rational-function, derivative and integral terms)",
         level_note="Exact for opaque functions; cells are the default cells and fixed affine images."),
    dict(id="C10", title="Functionals commute with their mappings",
         statement="Mapping a function to a cell with a functional's own mapping (perform_mapping) is the push-forward that mapping "
                   "names, for every function and cell; and a functional on the mapped cell applied to the pushed-forward function "
                   "equals the functional on the default cell applied to the function, where the mapping is one that preserves it. "
                   "Functionals of point derivatives and of multiderivative integrals refuse to map.",
         quantifier=Q("all functions (opaque), all functional classes and mappings, affine images of every cell"),
         why_tests_cant="Tests map a few basis functions of a few elements.",
         anchors=A(["symfem/functionals.py", "symfem/mappings.py"], ("perform_mapping", "symfem/functionals.py"),
                   ("mapping functions", "symfem/mappings.py")),
         technique="abstract interpretation (value numbering; terms compared after substitution by the specified transform)",
         level_note="Exact for opaque functions; cells are fixed affine images."),
    dict(id="C11", title="Every element is unisolvent",
         statement="Every registered element can be created on every cell it lists, for every supported order and variant; it has as "
                   "many DOFs as functions spanning its polynomial space, those functions are linearly independent, and the DOFs "
                   "are linearly independent on that space (the dual matrix is invertible), so the basis dual to the DOFs exists.",
         quantifier=Q("all elements, cells, orders and variants (the lowest three orders in the quick check, five in the thorough one)"),
         why_tests_cant="Tests build a hand-picked list of orders and variants; several combinations outside the list were singular or failed.",
         anchors=A(["symfem/elements", "symfem/moments.py", "symfem/polynomials", "symfem/functionals.py"],
                   ("element constructors", "symfem/elements"), ("CiarletElement.get_dual_matrix", "symfem/finite_element.py"),
                   ("make_integral_moment_dofs", "symfem/moments.py")),
         technique="abstract interpretation of element constructors; functionals applied to a generic function with opaque coefficients; "
                   "rank of the resulting linear forms modulo a prime",
         level_note="Cells, orders and variants are constants of the analysis and bounded; for each of them the result covers the whole space."),
    dict(id="C12", title="DOFs belong to the sub-entity they are associated with",
         statement="For every element, cell, order and variant, every DOF is associated with an existing sub-entity, its point lies on that "
                   "sub-entity and its integral is over exactly that sub-entity. The entity tables (entity_dofs, dof_entities, directions, "
                   "positions) agree, list every DOF exactly once and in order, and sub-entities of the same shape carry equally many DOFs "
                   "(transition and Fortin-Soulie elements excepted).",
         quantifier=Q("all elements, cells, orders and variants (the lowest three orders in the quick check, five in the thorough one)"),
         why_tests_cant="Tests check the association for a hand-picked list of orders and variants.",
         anchors=A(["symfem/elements", "symfem/finite_element.py", "symfem/functionals.py"], ("entity_dofs / dof_entities", "symfem/finite_element.py"),
                   ("element constructors", "symfem/elements")),
         technique="abstract interpretation of element constructors and functional accessors; comparison with the cell's topology tables",
         level_note="Cells, orders and variants are constants of the analysis and bounded."),
    dict(id="C13", title="Elements are as continuous as they say",
         statement="For every element whose continuity is not L2 and every facet of its cell, the trace named by the continuity (value, "
                   "value and gradient, normal component, tangential components, normal-normal or tangential-tangential components) of every "
                   "function of the space is determined by the DOFs on the closure of the facet. On macro elements that trace does not jump "
                   "across interior facets, and the traces of the basis functions are the same, in facet coordinates, on all facets of one shape.",
         quantifier=Q("all elements with a continuity, all facets, the whole polynomial space; lowest three orders in the quick check, five in the thorough one; "
                      "variants with interior DOFs only excepted"),
         why_tests_cant="Tests compare single basis functions on one pair of cells across one facet for a few orders.",
         anchors=A(["symfem/elements", "symfem/moments.py", "symfem/functionals.py"], ("continuity attributes and constructors", "symfem/elements"),
                   ("make_integral_moment_dofs", "symfem/moments.py")),
         technique="abstract interpretation of element constructors; trace functionals must lie in the span of the closure's DOF forms (rank modulo a prime)",
         level_note="Cells, orders and variants are constants of the analysis and bounded; for each of them the result covers the whole space and facet."),
    dict(id="C14", title="Elements span their polynomial space and report its degrees",
         statement="The polynomials of every element span exactly the space the literature defines for its family (complete, "
                   "tensor product, Nedelec, Raviart-Thomas, BDM, BDFM, BDDF, serendipity, trimmed and direct serendipity, Arnold-Winther, "
                   "Mardal-Tai-Winther, Bell, bubble enriched and similar). The Lagrange and polynomial subdegree (superdegree) an element "
                   "reports is the largest (smallest) degree whose complete space is contained in (contains) its space, -1 or None if there is none.",
         quantifier=Q("all elements and cells; lowest four orders in the quick check, six in the thorough one"),
         why_tests_cant="The degree tests skip orders above 2 (above 1 in 3D) and macro elements, and no test compares a space with its definition.",
         anchors=A(["symfem/elements", "symfem/polynomials/polysets.py"], ("polynomial lists of constructors", "symfem/elements"),
                   ("subdegree / superdegree properties", "symfem/finite_element.py"), ("polynomial sets", "symfem/polynomials/polysets.py")),
         technique="abstract interpretation of element constructors to coefficient vectors; span equality and containment (rank modulo a prime)",
         level_note="Cells and orders are constants of the analysis and bounded; families without a tabulated definition are checked for degrees only; "
                    "superdegrees of macro elements are not defined by the documentation and not checked."),
    dict(id="C15", title="Elements are created by name and describe themselves truthfully",
         statement="Creating an element by any of its names on any cell it lists gives the registered class with that cell, order, vertices and keyword "
                   "arguments; unknown names, unlisted cells, orders outside the declared range and cells of lower dimension than their space are refused. "
                   "The order, name, dimensions, range shape, value type and maximum degree an element reports are those of its functions, and "
                   "making it again from its init_kwargs gives the same functions and DOFs.",
         quantifier=Q("all names, cells and orders; all elements and variants (lowest orders)"),
         why_tests_cant="Tests create a hand-picked list; wrong value types and maximum degrees and lost keyword arguments went unnoticed.",
         anchors=A(["symfem/create.py", "symfem/finite_element.py", "symfem/elements"], ("create_element / add_element", "symfem/create.py"),
                   ("init_kwargs, maximum_degree, value_type, range_shape", "symfem/finite_element.py")),
         technique="abstract interpretation of the registry and of constructors; reported attributes against the extracted functions and functionals",
         level_note="Registry logic decided on stub classes covering every kind of bound; element attributes for the lowest orders of every cell and variant."),
    dict(id="C16", title="Basis functions are dual to the DOFs, and tables follow from them",
         statement="For every element given by a polynomial space and DOFs, the basis functions lie in the space and applying DOF i to basis "
                   "function j gives 1 if i equals j and 0 otherwise, with or without caching; the dual matrix (and its inverse) are those of DOF i on "
                   "polynomial j. Tabulation lists the values of the basis functions at the points in each of the documented orders, exactly and as "
                   "floats, and direct and enriched elements list their given functions and the functions of their sub-elements in order.",
         quantifier=Q("all polynomial spaces (opaque functions) and DOFs of up to three dimensions; small real elements"),
         why_tests_cant="Tests evaluate the DOFs on the basis of selected elements and tabulate a few of them at a few points.",
         anchors=A(["symfem/finite_element.py", "symfem/basis_functions.py"], ("get_dual_matrix / get_basis_functions", "symfem/finite_element.py"),
                   ("tabulate_basis / tabulate_basis_float", "symfem/finite_element.py"), ("EnrichedElement / DirectElement", "symfem/finite_element.py")),
         technique="abstract interpretation of the element classes on opaque functions; identities of rational terms",
         level_note="Exact for elements with up to three opaque functions; larger spaces are covered by the same code paths only."),
    dict(id="C17", title="Mapping a basis to a cell pushes every function forward by its DOF's map",
         statement="Mapping the basis functions of an element to a cell with any vertices returns, in order, the push-forward of each function "
                   "by the mapping of its DOF and the map to that cell (or the given basis and maps), with the pieces of piecewise functions moved "
                   "along; an element with a DOF that cannot be mapped is made again on the cell with the same arguments. The element's own basis is "
                   "left unchanged, and DOFs use the mapping that preserves the element's continuity (contravariant for H(div), covariant for H(curl), "
                   "double versions for their inner variants, identity for C^k).",
         quantifier=Q("all affine vertex positions (symbolic), all functions (opaque), all mixes of mappings; all elements, cells and variants of lowest orders"),
         why_tests_cant="Tests map selected elements to one fixed neighbouring cell and compare single traces.",
         anchors=A(["symfem/finite_element.py", "symfem/functionals.py", "symfem/mappings.py", "symfem/elements"],
                   ("map_to_cell", "symfem/finite_element.py"), ("perform_mapping", "symfem/functionals.py"), ("PiecewiseFunction.map_pieces", "symfem/piecewise_functions.py")),
         technique="abstract interpretation of map_to_cell on stub and registered elements; identities of rational terms over opaque functions",
         level_note="Push-forward exact for opaque functions and symbolic affine cells; registered elements with constant affine cells and up to 9 DOFs; "
                    "non-affine cells not covered."),
    dict(id="C18", title="Tensor-product factorisations reproduce the basis functions",
         statement="An element that offers a tensor-product factorisation gets from the tensor method exactly the basis functions its DOFs determine, "
                   "on the default cell, on any cell and for every variant: products of the factors' basis functions in their own variables, placed by "
                   "the permutation. An element without a factorisation, or whose variant or cell the factorisation does not describe, refuses it.",
         quantifier=Q("all products of up to three factors with opaque functions and all permutations; all registered elements, variants and cells of small orders"),
         why_tests_cant="Tests compare the factorised basis with the solved one for default variants on the default cell only; other variants and cells were wrong.",
         anchors=A(["symfem/finite_element.py", "symfem/elements/q.py"], ("get_tensor_factorisation", "symfem/elements/q.py"),
                   ("_get_basis_functions_tensor", "symfem/finite_element.py")),
         technique="abstract interpretation; products of opaque functions compared as terms, DOFs applied to the factorised basis",
         level_note="The product rule is exact; registered elements for small constant orders."),
    dict(id="C19", title="The matrix cache returns what was saved, after crashes and in parallel",
         statement="Loading a cached matrix gives exactly the matrix last saved under that type, name and size, and None if there is none. If a save stops at "
                   "any point, or two processes save or import the package at the same time, every load gives None or a complete matrix that was saved, "
                   "never a torn one and never an exception. Elements whose dual matrices differ (class, version, order, variant, cell type or vertices) "
                   "never share a cache entry.",
         quantifier=Q("all matrix entries (opaque); all crash points of a save; all interleavings of two savers; all registered elements, variants and small orders", "inputs", "crash_points", "schedules"),
         why_tests_cant="Tests never stop a save half-way, never run two savers, and do not compare keys across the catalogue.",
         anchors=A(["symfem/caching.py", "symfem/finite_element.py"], ("save_cached_matrix / load_cached_matrix", "symfem/caching.py"),
                   ("get_dual_matrix caching keys", "symfem/finite_element.py")),
         technique="effect analysis: ordered file effects extracted from the source on an abstract file system; all prefixes and interleavings enumerated",
         level_note="Effects are taken as atomic per character written and renames as atomic; loss of unflushed data by a power cut is not modelled."),
    dict(id="C20", title="Polynomial sets, orthonormal bases and quadrature rules are as named",
         statement="Every polynomial set (Lagrange, serendipity, Nedelec, Raviart-Thomas, Hdiv/Hcurl variants and so on) is a linearly independent set spanning the "
                   "space of its name, orthogonal and orthonormal bases span the complete space of each cell in the documented order, are (ortho)normal on the "
                   "reference cell and their derivative tables are their derivatives, and Lobatto and dual bases satisfy their defining relations. "
                   "Quadrature rules have the asked number of points in increasing order in the interval, include the end points they promise and integrate polynomials up "
                   "to their degree exactly; names, cells and sizes that are not supported are refused.",
         quantifier=Q("all sets, cells and rules; orders up to 3 to 6 as constants of the analysis"),
         why_tests_cant="Tests look at counts and at a few orders; functions are compared with one another, not with the definition of the space.",
         anchors=A(["symfem/polynomials", "symfem/quadrature.py"], ("polynomial sets", "symfem/polynomials/polysets.py"),
                   ("orthogonal / orthonormal bases", "symfem/polynomials/legendre.py"), ("Lobatto bases", "symfem/polynomials/lobatto.py"),
                   ("dual bases", "symfem/polynomials/dual.py"), ("quadrature rules", "symfem/quadrature.py")),
         technique="abstract interpretation for constant orders; spans by rank, inner products by exact integration of terms",
         level_note="Orders are constants and bounded; irrational constants are compared to 60 digits."),
    dict(id="C21", title="DOFs are those of the element's definition",
         statement="For every element, cell, order and variant in the table of definitions, the DOFs associated with each sub-entity are, as functionals on the "
                   "element's space, the point evaluations, derivatives and integral moments (against a basis of the space of the definition, in the direction of the "
                   "definition) of the literature, with the points and test functions of the variant; mass-lumped elements use quadrature weights that integrate "
                   "exactly, and integral moments made for a sub-entity test against the basis of the moment space moved there by its mapping.",
         quantifier=Q("all tabulated elements, cells and variants; orders lowest to lowest + 2 (quick) or + 4 (thorough); all functions of the space"),
         why_tests_cant="Tests check duality of the basis with whatever DOFs the element has, so wrong weights, points, directions or test functions pass.",
         anchors=A(["symfem/elements", "symfem/functionals.py", "symfem/moments.py"], ("element constructors", "symfem/elements"),
                   ("make_integral_moment_dofs", "symfem/moments.py")),
         technique="abstract interpretation of constructors; functionals as linear forms with symbolic coefficients compared with a table of definitions",
         level_note="Orders are constants of the analysis; spans of functionals are compared modulo a large prime where the definition fixes only a span."),
    dict(id="C22", title="Results do not depend on earlier calls, and operands are left unchanged",
         statement="Creating an element or cell and asking it for anything gives the same result in a fresh session as after any other elements, cells or functions "
                   "were made and used, and the same result when asked again. No operator, method or constructor modifies the functions it is applied to or the "
                   "lists, tuples and dictionaries handed to it.",
         quantifier=Q("all element families, cells and function kinds; sessions that make and use several of them in both orders", "histories"),
         why_tests_cant="Every test starts from one history; sharing of state between calls depends on which calls come before.",
         anchors=A(["symfem/finite_element.py", "symfem/functions.py", "symfem/references.py", "symfem/create.py"], ("cached bases and matrices", "symfem/finite_element.py"),
                   ("function operators", "symfem/functions.py"), ("create_element", "symfem/create.py")),
         technique="abstract interpretation of two histories of the same program; every reading compared as terms; operands read before and after",
         level_note="Histories mix up to three configurations of a family; the on-disk cache is decided by C19."),
    dict(id="C23", title="Exact results contain no floating-point numbers",
         statement="Basis functions, polynomials, DOF points and directions, dual matrices, exact tabulation, mapped bases, cell measures, maps, lattices, integrals, "
                   "derivatives, quadrature rules, polynomial sets and every other result that is not asked for in floating point are exact symbolic numbers and "
                   "expressions whenever their inputs are: no floating-point number enters them.",
         quantifier=Q("all elements, cells, variants, quadrature rules and polynomial sets of small orders; all function operations"),
         why_tests_cant="A floating-point constant passes numeric comparisons and most symbolic ones; tests do not look at the kind of number.",
         anchors=A(["symfem/elements", "symfem/references.py", "symfem/functions.py", "symfem/quadrature.py", "symfem/polynomials"],
                   ("element constructors", "symfem/elements"), ("get_quadrature", "symfem/quadrature.py"), ("Reference methods", "symfem/references.py")),
         technique="data-flow (taint) analysis of floating-point numbers through abstract interpretation",
         level_note="Orders are constants of the analysis; functions that are asked for floats (tabulate_basis_float, make_lattice_float, with_floats, plots) are exempt."),
    dict(id="C24", title="Diagrams and pictures show every item where it is",
         statement="A DOF diagram shows every DOF exactly once, numbered, in its sub-entity's colour, at its point and along its direction, on the edges of the cell; "
                   "an entity diagram labels every sub-entity once at its midpoint; plots of functions show the values at the lattice points in proportion, whatever "
                   "was plotted before. SVG and TikZ output draw the same items at one uniformly scaled image of their coordinates, in the size asked for, and saving "
                   "writes every file name given in the format of its extension or refuses.",
         quantifier=Q("all elements of lowest order on all cells; all kinds of drawing items; scales, widths, heights and axes"),
         why_tests_cant="Tests only check that plotting does not raise; nothing reads the pictures.",
         anchors=A(["symfem/plotting.py", "symfem/finite_element.py", "symfem/references.py", "symfem/functions.py"], ("Picture", "symfem/plotting.py"),
                   ("plot_dof_diagram", "symfem/finite_element.py"), ("plot_entity_diagrams", "symfem/references.py"), ("plot_values", "symfem/functions.py")),
         technique="abstract interpretation of the drawing code; positions as terms, output text rendered from string terms",
         level_note="Items are compared in projection; tick sizes, fonts, line widths and the PNG conversion are not decided."),
    dict(id="C25", title="Comparison helpers, point parsing and cell identity are exact",
         statement="allequal is true exactly for (nested) lists and tuples of the same shape whose items, numbers, expressions or functions, are mathematically equal "
                   "in every position. Points given as tuples, lists or row or column matrices parse to the same tuple of their coordinates. Two cells are equal "
                   "exactly when they have the same shape and vertices in order, and equal cells hash alike.",
         quantifier=Q("all pairs of a family of nested containers, functions and cells; symbolic points"),
         why_tests_cant="Tests use allequal to compare and so cannot see that it accepts different values.",
         anchors=A(["symfem/utils.py", "symfem/geometry.py", "symfem/references.py"], ("allequal", "symfem/utils.py"), ("parse_point_input", "symfem/geometry.py"),
                   ("Reference.__eq__ / __hash__", "symfem/references.py")),
         technique="abstract interpretation on enumerated pairs of values",
         level_note="Pairs are enumerated; empty lists compared with functions are not decided."),
]

NA = []
