"""Catalogue of the properties: the single source of properties.jsonl and MANIFEST.json
(written by bin/genmeta.py)."""

FAC = "conmech/dynamics/factory/"
OPT = "conmech/solvers/optimization/"
PS = "conmech/simulations/problem_solver.py"
STM = "conmech/dynamics/statement.py"
DYN = "conmech/dynamics/dynamics.py"
BF = "conmech/scene/body_forces.py"
MSH = "conmech/mesh/mesh.py"
BFAC = "conmech/mesh/boundaries_factory.py"
BND = "conmech/mesh/boundaries.py"
SM = "conmech/solvers/solver_methods.py"
STA = "conmech/state/state.py"

P = {}


def prop(pid, title, statement, over, text, why, files, mechanism, observe=(), note=""):
    P[pid] = dict(
        title=title, statement=statement, over=over, text=text, why=why, files=files,
        mechanism=[{"name": n, "where": w} for n, w in mechanism], observe=list(observe),
        note=note,
    )


prop("C01", "Mass, derivative and gradient matrices are the exact P1 integrals",
     "For every mesh of non-degenerate triangles or tetrahedra, in any element orientation and node "
     "order, the assembled mass, mixed value/derivative and derivative/derivative matrices equal "
     "the exact integrals of products of piecewise linear basis functions and their partial "
     "derivatives. In particular the entries of the mass matrix sum to the measure of the body and "
     "gradients of constants vanish.",
     ["inputs"], "all node coordinates and orientations of one or two elements, plus larger fixed "
     "meshes with symbolic scaling",
     "Tests compare a few matrices of fixed right-angled meshes; wrong signs or transpositions "
     "show only on generic, obtuse or re-oriented elements.",
     [FAC + "_dynamics_factory_2d.py", FAC + "_dynamics_factory_3d.py",
      FAC + "dynamics_factory_method.py"],
     [("2D element kernels and assembly", FAC + "_dynamics_factory_2d.py:get_edges_features_matrix_numba"),
      ("3D element kernels and assembly", FAC + "_dynamics_factory_3d.py:get_edges_features_matrix_numba")])

prop("C02", "Elastic and viscous operators are the isotropic Lame forms",
     "The elasticity and viscosity matrices are, in 2D and 3D, exactly the isotropic bilinear form "
     "2*mu*eps(u):eps(v) + lambda*div(u)*div(v) of the given moduli (viscosity: theta and zeta). "
     "They are symmetric and vanish on rigid translations and infinitesimal rotations.",
     ["inputs", "configurations"], "all moduli, all coordinates of one or two elements, larger "
     "meshes with symbolic scale",
     "The tests use a handful of moduli on one mesh and look at solutions, so a wrong block, a "
     "swapped modulus or a transposed coupling that keeps symmetry goes unnoticed.",
     [FAC + "_dynamics_factory_2d.py", FAC + "_dynamics_factory_3d.py", DYN],
     [("form assembled from gradient integrals", FAC + "_dynamics_factory_2d.py:calculate_constitutive_matrices"),
      ("3D form", FAC + "_dynamics_factory_3d.py:calculate_constitutive_matrices"),
      ("which moduli feed which operator", FAC + "dynamics_factory_method.py:get_dynamics")])

prop("C03", "Mass, wave/Poisson, conductivity and permittivity operators are exact",
     "The inertia matrix is density times the mass matrix of every component; the membrane operator "
     "is the Laplace form scaled by the square of the propagation speed; the thermal conductivity "
     "and electric permittivity operators are the gradient forms of the given tensors, also for "
     "anisotropic and asymmetric tensors.",
     ["inputs", "configurations"], "all tensors, densities, speeds; all coordinates of one or two "
     "elements; larger meshes with symbolic scale",
     "Tests use isotropic or symmetric tensors on one regular mesh, for which many wrong "
     "contractions coincide.",
     [FAC + "_dynamics_factory_2d.py", FAC + "_dynamics_factory_3d.py",
      FAC + "dynamics_factory_method.py", DYN],
     [("scalar operators", FAC + "_dynamics_factory_2d.py"),
      ("wiring of operators to properties", DYN + ":Dynamics.reinitialize_matrices")])

prop("C04", "Thermal and piezoelectric coupling operators are exact",
     "The thermal expansion operator is the integral of temperature test values times the "
     "contraction of the expansion tensor with the gradient of a vector field, and the piezoelectric "
     "operator is the third-order tensor contracted with both gradients, for arbitrary tensors. "
     "Rows belong to the scalar field and columns to the components of the vector field.",
     ["inputs", "configurations"], "all tensors, all coordinates of one or two elements",
     "Tests use diagonal tensors with equal entries; index order mistakes cancel there.",
     [FAC + "_dynamics_factory_2d.py", FAC + "_dynamics_factory_3d.py",
      FAC + "dynamics_factory_method.py"],
     [("thermal expansion", FAC + "_dynamics_factory_2d.py:calculate_thermal_expansion"),
      ("piezoelectricity", FAC + "_dynamics_factory_2d.py:get_piezoelectric_tensor")])

prop("C05", "The relaxation operator always belongs to the requested time",
     "Whenever the relaxation operator is requested for a time it equals the contraction of the "
     "relaxation tensor at that very time with the current gradient integrals, whatever was "
     "requested before and also after element densities were changed. Bodies without relaxation "
     "refuse the request.",
     ["inputs", "histories"], "histories of four requests at arbitrary, repeated or decreasing times",
     "The operator is cached; tests run one history with increasing times and a tensor that hardly "
     "changes.",
     [DYN, FAC + "_dynamics_factory_2d.py"],
     [("time-keyed cache", DYN + ":Dynamics.relaxation"),
      ("tensor contraction", FAC + "_dynamics_factory_2d.py:get_relaxation_tensor")])

prop("C06", "Element densities weight exactly their own element's stiffness",
     "After setting element densities, every element contributes to the elastic and viscous "
     "operators its uniform-density contribution times its own density, and setting uniform "
     "densities restores the original operators. Repeated updates do not compound and the next "
     "solution uses the updated operators with every solving method.",
     ["inputs", "histories"], "all densities, all coordinates of two elements, histories of up to "
     "four updates, three solving methods",
     "One test checks one density vector against a stored result; order of elements, repeated "
     "updates and stale systems are not looked at.",
     [DYN, FAC + "_dynamics_factory_2d.py", PS],
     [("weighted assembly", FAC + "_dynamics_factory_2d.py"),
      ("re-initialisation", DYN + ":Dynamics.reinitialize_matrices"),
      ("refreshed solvers", PS + ":NonHomogenousSolver.update_density")])

prop("C07", "Loads are integrated exactly and always for the requested time",
     "The load vector assigns to every node the integral of the interpolated volume density and of "
     "the traction over Neumann faces only, so that the sum over nodes is the total load on the "
     "body. Loads depend on the time of the request, not on earlier requests; replaced sources "
     "take effect once the loads are cleared.",
     ["inputs", "histories", "configurations"], "all densities (affine fields), all coordinates of "
     "one triangle, all subsets of traction faces, histories of requests",
     "Tests use constant loads on one mesh, one time and one boundary layout.",
     [BF, "conmech/mesh/boundary.py", BND],
     [("volume integration", BF + ":BodyForces"), ("surface integration", BF + ":BodyForces"),
      ("per-time cache", BF + ":BodyForces")])

prop("C08", "Every step solves the balance equation of its problem class",
     "At every step of every problem class the linear system behind the solution is the "
     "discretisation the class stands for: static E u = f; quasistatic V v + E(u + dt v) = f; "
     "dynamic with inertia M(v - v_old)/dt; long-memory E u + R(t)(b + dt u) = f; wave and Poisson "
     "with their scalar operators. State, time-dependent loads and operators are those of the "
     "current step; default initial fields are zero.",
     ["inputs", "histories"], "all states, loads affine in space and time, 2-3 consecutive steps",
     "Tests compare end results of single runs with stored numbers, with loads constant in time.",
     [STM, PS, OPT + "schur_complement.py", OPT + "global_optimization.py"],
     [("left and right hand sides per class", STM), ("state hand-over between steps", PS + ":ProblemSolver.run"),
      ("per-step refresh", OPT + "global_optimization.py:iterate")])

prop("C09", "Prescribed values are eliminated exactly and symmetrically",
     "In every system that is solved, rows and columns of unknowns with prescribed values are "
     "replaced by unit equations for the prescribed value, with their contribution moved to the "
     "right hand side of all remaining equations. All other equations are those of the problem, and "
     "this holds for one to three components, for several named boundaries and for any node order.",
     ["inputs", "configurations"], "all prescribed values and loads, every non-empty set of fixed "
     "nodes of small meshes, every problem class",
     "Tests almost always prescribe zero, for which a missing right hand side term is invisible.",
     [STM, BND], [("elimination", STM + ":Statement.apply_dirichlet_condition"),
                  ("index runs of a boundary", BND + ":Boundaries.get_all_boundary_indices")])

prop("C10", "Returned solutions carry the prescribed boundary values exactly",
     "In every returned state of every problem class and solving method, the primary unknown "
     "(displacement, velocity, temperature or electric potential) at prescribed nodes equals the "
     "prescribed value, component by component, whatever the optimiser returned. All other entries "
     "are those that were computed.",
     ["inputs", "configurations", "histories"], "all optimiser results and prescribed values, "
     "several sets of fixed nodes, up to 3 steps, all methods",
     "Tests prescribe zeros on one side of the body and look at stored results.",
     ["conmech/solvers/solver.py", BND, STA, PS],
     [("overwriting after each solve", "conmech/solvers/solver.py:Solver.solve"),
      ("state update", STA)])

prop("C11", "Renumbering keeps the geometry and groups nodes by boundary kind",
     "After preparation the mesh has the same elements over the same points as the given one, "
     "possibly renumbered. Contact nodes come first, Dirichlet nodes last, and the counts of contact, "
     "Neumann, Dirichlet, free and independent nodes agree with the user's predicates.",
     ["inputs", "configurations"], "every classification of the nodes of small meshes, all positions "
     "of one node, several numberings",
     "Tests use a few rectangles with one classification each.",
     [MSH, BFAC, BND], [("reordering", BFAC + ":BoundariesFactory.identify_boundaries_and_reorder_nodes"),
                        ("counts", BND)])

prop("C12", "The boundary is found exactly and split by the user's predicates",
     "The boundary consists of exactly the faces that belong to one element, inner boundaries "
     "included. Each face is contact, Dirichlet or Neumann according to the user's predicates, no "
     "face is lost or listed twice, and named boundaries contain exactly their faces and nodes.",
     ["inputs", "configurations"], "every pair of predicates on small meshes, meshes with holes, "
     "several named boundaries",
     "Tests use convex regular meshes and one predicate set each.",
     [BFAC, BND, "conmech/mesh/boundary.py"],
     [("boundary search", BFAC), ("classification", BFAC)])

prop("C13", "Every boundary face carries its own outward unit normal",
     "The normal stored for a boundary face has unit length, is perpendicular to that face and "
     "points out of the adjacent element. This holds for all mixtures of boundary kinds, both "
     "orientations of elements and for faces around holes.",
     ["inputs", "configurations"], "all coordinates of one triangle, every assignment of kinds on "
     "small meshes, holes, tetrahedra and cubes",
     "Tests check one axis-aligned rectangle with one classification.",
     [BFAC], [("normals", BFAC)])

prop("C14", "Mesh preparation drops only unused nodes and moves the body rigidly",
     "Nodes that no element uses are removed and elements keep referring to their own points, edges "
     "list every pair of nodes of a common element exactly once, and a requested position translates "
     "the body so that its bounding box starts there. Operators do not depend on the position, and "
     "the arrays of the mesh's source are left as they are.",
     ["inputs", "configurations"], "stray nodes at all kinds of places with arbitrary coordinates, "
     "all coordinates of two triangles, all positions",
     "Tests read meshes without stray nodes or with trailing ones only.",
     [MSH, "conmech/mesh/mesh_builders.py"], [("removal of unused nodes", MSH), ("translation", MSH)])

prop("C15", "The structured cross mesh tiles its rectangle exactly",
     "For every size and every number of cells, the cross mesh consists of non-degenerate triangles "
     "that cover the rectangle without overlap or gap, with conforming edges and no duplicated "
     "nodes. This does not depend on the absolute size of the cells.",
     ["inputs", "configurations"], "all sizes for 1x1 to 3x2 cells, all scales for 5x4 cells",
     "Tests use a few sizes of order one.",
     ["conmech/mesh/zoo/cross_for_tests.py"], [("construction", "conmech/mesh/zoo/cross_for_tests.py")])

prop("C16", "The minimised functional is energy plus the contact cost of its law",
     "The functional handed to the optimiser is half the quadratic form minus the load plus, for "
     "each contact face, its length times the mean of bound times potential over the face's midpoint "
     "and end nodes, in normal and tangential direction with the face's own normal; interior "
     "contact sums half the mass-weighted nodal potentials. The previous displacement enters by its "
     "face mean, and values at nodes that are not unknowns are the prescribed ones.",
     ["inputs"], "all unknowns, known fields, systems, coordinates and normals; potentials and bounds "
     "with symbolic coefficients; one and two components",
     "Tests look at minimisers of a few laws; weights, normals, bounds and known nodes are only "
     "exercised in combinations that hide mistakes.",
     [SM, OPT + "optimization.py"], [("cost functional", SM + ":make_cost_functional"),
                                     ("wiring of laws", OPT + "optimization.py:Optimization.__init__")])

prop("C17", "Nonlinear equation and subgradient are the derivative of the functional",
     "Wherever the contact law is differentiable (no state-dependent bounds, no tangential part), the gradient passed to gradient-based optimisers "
     "and the equations solved by the direct method are the derivative of the functional that is "
     "minimised. Hence a zero of the equations is a stationary point of the functional.",
     ["inputs"], "all unknowns, known fields, systems and geometry; laws with symbolic coefficients",
     "Tests only check that some methods approximately agree for one law.",
     [SM], [("equation", SM + ":make_equation"), ("subgradient", SM + ":make_subgradient")])

prop("C18", "Shipped contact laws have matching potential and subderivative",
     "For every contact law that is shipped, the declared subderivative is the derivative of the "
     "declared potential wherever that exists and lies between the one-sided derivatives at kinks; "
     "potentials without damping are continuous. For composed and parametrised laws this holds for all parameters.",
     ["inputs", "configurations"], "all arguments (both sides of every kink) and all parameters",
     "Tests evaluate laws at a few penetrations.",
     ["conmech/dynamics/contact/contact_law.py", "conmech/dynamics/contact/constant_constact_law.py",
      "conmech/dynamics/contact/damped_normal_compliance.py",
      "conmech/dynamics/contact/relu_slope_contact_law.py"],
     [("laws", "conmech/dynamics/contact/")])

prop("C19", "Condensation to contact nodes is equivalent to the full system",
     "The condensed system minimised over the contact unknowns differs from the full functional, "
     "with free unknowns at their optimum, by a constant only, and the completed solution satisfies "
     "every equation of a free unknown. This holds at every time step and for all problem classes "
     "with symmetric operators that can be condensed.",
     ["inputs", "histories"], "all systems of small size, all loads and contact values; one and two "
     "components; several steps",
     "Tests compare the two methods only through converged optimiser results with loose tolerances.",
     [OPT + "schur_complement.py"],
     [("condensation", OPT + "schur_complement.py:calculate_schur_complement_matrices"),
      ("completion", OPT + "schur_complement.py:complement_free_nodes"),
      ("per-step refresh", OPT + "schur_complement.py:iterate")])

prop("C20", "Solving methods are interchangeable",
     "Every optimisation method serves every problem class, and every name of a method, in any "
     "case, poses the same discrete problem: same operators, loads, states and contact cost at every "
     "step. The direct method's answer of a problem without contact is stationary for the functional "
     "that the optimisation methods minimise; unknown methods and problems are refused.",
     ["inputs", "configurations", "histories"], "all states and loads, every registered pair of "
     "class and method, several steps",
     "Tests compare methods on a few configurations up to optimiser tolerance.",
     ["conmech/solvers/_solvers.py", OPT + "schur_complement.py", OPT + "global_optimization.py",
      "conmech/solvers/direct.py"],
     [("registry", "conmech/solvers/_solvers.py"), ("refresh of each method", OPT)])

prop("C21", "States keep their kinematic relations",
     "When a velocity is accepted the displacement advances by exactly (new time - old time) times "
     "that velocity, and when a displacement is accepted the absement advances likewise; time, "
     "displaced nodes and stress always belong to the current fields. Copies are independent of the "
     "original, and accepted vectors stay the caller's: neither side sees changes of the other.",
     ["inputs", "histories"], "all field values and times, histories of updates, every state class",
     "Tests look at final states of single runs.",
     [STA], [("updates", STA + ":State.set_velocity"), ("copy", STA + ":State.copy")])

prop("C22", "Snapshots are taken exactly at the requested steps",
     "For any increasing list of output steps the solver returns one state per requested step, whose "
     "time is that many time steps after the start and whose fields are those of that step. "
     "Later steps do not change snapshots already returned and the default returns the last step.",
     ["inputs", "configurations", "histories"], "all lists of output steps over four steps, every "
     "time-dependent problem class, arbitrary optimiser results",
     "Tests request few lists and compare only the last state.",
     [PS, STA], [("run loop", PS + ":ProblemSolver.run"), ("snapshot copies", STA + ":State.copy")])

prop("C23", "Solving again, or resuming, equals an uninterrupted fresh run",
     "Calling a solver a second time gives the same sequence of systems and states as a fresh solver "
     "would, for all initial data. A simulation resumed from a returned state continues exactly as "
     "the uninterrupted one.",
     ["inputs", "histories"], "all initial data and optimiser results; run-run and run-resume "
     "histories of up to four steps",
     "Every test constructs a fresh solver and runs it once.",
     [PS, "conmech/solvers/solver.py"], [("initialisation of a run", PS), ("solver state", "conmech/solvers/solver.py")])

prop("C24", "Coupled problems exchange the current partner field with adjoint operators",
     "In coupled thermal and piezoelectric problems, the mechanical system of each inner iteration "
     "uses the latest partner field and the partner system the latest velocity and the displacement "
     "it implies, with the same coupling operator and its transpose. The iteration starts from the "
     "last accepted state and ends with mutually consistent fields. Bodies have unit density, "
     "0.1 in piezoelectric problems with inertia.",
     ["inputs", "histories"], "all states, loads and iterates; both problem families; several inner "
     "iterations and steps",
     "Tests check final fields of short runs where the coupling is weak.",
     [PS, STM], [("inner loop", PS + ":ProblemSolver.find_solution_uzawa"), ("coupling terms", STM)])

prop("C25", "Recorded products follow the run",
     "A product records, at every step inside its range and at no other, the quantity it is defined "
     "as, evaluated on the fields of that step. Copies of states carry copies of products: "
     "later steps do not alter the products of earlier snapshots.",
     ["inputs", "histories", "configurations"], "all fields, all ranges over four steps, every "
     "product class",
     "Tests look at the last value of one product.",
     ["conmech/state/products/product.py", "conmech/state/products/penetration.py",
      "conmech/state/products/verticalintersection.py",
      "conmech/state/products/intersection_contact_limit_points.py", STA],
     [("range and update", "conmech/state/products/product.py"), ("hooks", STA)])

prop("C26", "Saving a state is faithful and leaves it usable",
     "A saved state reads back with the same fields, mesh and time, and saving leaves the state in "
     "memory exactly as it was, also when the write fails half-way. A simulation can go on from "
     "either.",
     ["inputs", "fault_sequences", "histories"], "all field values; every failing position of the "
     "write",
     "No test lets a save fail or compares the state before and after.",
     [STA], [("save and load", STA + ":State.save")])

prop("C27", "Operator objects behave as matrices",
     "Sums, scalings, products, transposition and blocks of operators, with arrays or other operators "
     "on either side, equal those of the underlying matrices and leave their "
     "operands unchanged. In-place forms change exactly the object they are applied to and leave "
     "aliases consistent.",
     ["inputs", "programs"], "all entries of small matrices, all pairs of operations of a short "
     "program",
     "Tests do not touch the operator objects directly.",
     ["conmech/struct/stiffness_matrix.py"], [("operators", "conmech/struct/stiffness_matrix.py")])

prop("C28", "Pictures show the state they are drawn from",
     "A picture of a state shows the element edges at the original and displaced node positions, "
     "each boundary part at its displaced nodes in its own colour, fields as the nodal values on the "
     "displaced mesh, and traction arrows as the traction of the state's time at the loaded nodes; "
     "axis limits include the whole body. Plots of contact limit points mark every recorded point, "
     "and nothing else; membranes are drawn with their own deflection, any number of them. Bodies "
     "without some kind of boundary are drawn too.",
     ["inputs", "configurations"], "all displacements, fields and times; with and without fixed "
     "part; short and long records",
     "Tests do not look at pictures.",
     ["conmech/plotting/drawer.py", "conmech/plotting/membrane.py"],
     [("body pictures", "conmech/plotting/drawer.py:Drawer.do_draw"),
      ("limit points", "conmech/plotting/membrane.py:plot_limit_points")])

prop("C29", "Mesh sources deliver the described body",
     "A body read from a file has exactly the points and the highest-dimensional elements of the "
     "file (planar files may carry a third coordinate); generated shapes are requested with the "
     "described size and element size and taken over unchanged, spatial shapes scaled to the unit "
     "box. The built-in cube and ball consist of elements that do not overlap, meet in whole faces "
     "and leave no holes.",
     ["inputs", "configurations"], "all coordinates returned by the mesher, scales, radii and "
     "element sizes; every point of the built-in bodies",
     "Tests build a few meshes and only look at what a solver makes of them.",
     ["conmech/properties/mesh_description.py", "conmech/mesh/zoo/pygmsh/_utils.py",
      "conmech/mesh/zoo/cube.py", "conmech/mesh/zoo/ball.py", "conmech/mesh/zoo/rectangle.py"],
     [("files", "conmech/properties/mesh_description.py:ImportedMeshDescription.build"),
      ("generated shapes", "conmech/mesh/zoo/pygmsh/_utils.py:get_nodes_and_elements"),
      ("built-in bodies", "conmech/mesh/zoo/cube.py:Cube")])

prop("C30", "Linear fields and uniform stress are reproduced exactly",
     "On a mesh of any shape a body whose rim moves as a linear field, or whose rim is pulled by "
     "the tractions of a uniform stress, is in equilibrium with that linear field everywhere: the "
     "functional handed to the optimiser is stationary there, for static, quasistatic and dynamic "
     "bodies in the plane and in space, linear temperatures and membranes alike.",
     ["inputs", "configurations"], "all coefficients of the field, moduli, conductivities, position "
     "of an inner node",
     "Tests compare stored numbers of loads for which no exact solution is known.",
     [PS, "conmech/dynamics/statement.py", "conmech/dynamics/factory/dynamics_factory_method.py",
      OPT + "optimization.py"],
     [("static problems", PS + ":StaticSolver"), ("statements", "conmech/dynamics/statement.py")])

prop("C31", "Without loads a body never gains energy",
     "With no forces and fixed parts at rest the sum of kinetic and stored energy never grows from "
     "one step to the next, whatever the initial fields and the time step: for viscoelastic bodies "
     "with and without inertia, in the plane and in space, for membranes, for damping contact and "
     "friction, and for the exchange with temperature and electric fields.",
     ["inputs", "histories"], "all initial displacements, velocities, temperatures and potentials; "
     "small and large time steps",
     "Tests never evaluate an energy; a sign or weight error of one term shows up after many steps "
     "of particular initial fields.",
     [PS, "conmech/dynamics/statement.py", "conmech/state/state.py",
      OPT + "optimization.py"],
     [("time steps", PS + ":TimeDependentSolver"), ("state update", STA + ":State")])

prop("C32", "Results depend neither on numbering nor on frame and units",
     "Renumbering nodes, reordering elements and their corners, moving the body anywhere, turning "
     "or mirroring it, and measuring lengths, times and stresses in other units change neither the "
     "problem handed to the optimiser nor the computed fields, beyond expressing them in the new "
     "numbering, frame and units. Loads, prescribed values, contact laws, material tensors and "
     "initial fields are carried along. This holds for static, time-dependent, coupled, scalar and "
     "membrane problems.",
     ["inputs", "configurations"], "all loads, laws, states, translations and units; numberings, "
     "turns and mirror images",
     "Every test uses one mesh, near the origin and parallel to the axes, in unit scales.",
     [PS, MSH, BND, STM, SM, DYN], [("simulations", PS), ("mesh", MSH + ":Mesh")])

prop("C33", "The constrained method keeps exactly the contact nodes above the foundation",
     "With the optimisation method 'constrained' the optimiser minimises the same functional as "
     "without it over the vectors whose contact nodes have a non-negative second component, no more "
     "and no less, in every step of static and time-dependent problems, for the global and the "
     "condensed method, also where contact faces reach fixed nodes; its answer is taken over as it "
     "is.",
     ["inputs", "configurations"], "all unknown vectors, loads, states and laws",
     "No test uses the method.",
     [OPT + "optimization.py", PS], [("constraint", OPT + "optimization.py:Optimization._solve_impl")])

NA = {}
