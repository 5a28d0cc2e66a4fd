"""Source of truth for properties.jsonl and MANIFEST.json (see gen_meta.py)."""
PROPS = []
NOT_APPLICABLE = []
SUITE_NOTE = ("All checks are generated-input searches run by lib/pbt.py (Hypothesis, vendored in vendor/); VERIF_SEED "
              "seeds every random choice, failures are shrunk and written to replays/ (run.sh <ID> --replay FILE). "
              "No hooks in /repo are needed; the 'fix:' commits are listed in known_findings.jsonl.")


def P(id, title, statement, over, forall, why, files, mechanism, observe, technique, note, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, forall=forall, why=why, files=files,
                      mechanism=mechanism, observe=observe, technique=technique, note=note, state=state))


M = "rainbow/math/"
P("C01", "Quaternions and rotation matrices implement one rotation algebra",
  """Quaternion product, conjugation, norm, unit, vector rotation and conversion to a matrix satisfy the laws of the
  rotation group, and rotating by an angle about an axis means the right-handed rotation whether it is expressed with
  quaternions or matrices. Batch versions agree with doing the elements one at a time, for every batch size.
  Random quaternions have unit length and point all ways.""",
  ["inputs"], "all quaternions (unit or not), axes of any length, angles, vectors and batch sizes",
  "unit tests use a few hand-picked axis-aligned values; sign and index errors that vanish for such values pass",
  [M + "quaternion.py", M + "matrix3.py"],
  [("prod/rotate/to_matrix", M + "quaternion.py"), ("Ru/Rx/Ry/Rz/star/make_from", M + "matrix3.py")],
  ["return values of the quaternion and matrix functions"],
  "algebraic laws and differential oracle (independent Rodrigues / Hamilton product)",
  "Search over generic, axis-aligned, half-turn and non-unit inputs against an algebra written in the harness; trusts numpy.")
P("C02", "Conversions between rotation representations keep the rotation",
  """Converting a rotation between quaternion, matrix, angle-axis, Euler angles and rotation vector, and back, yields the
  same rotation, including rotations by zero, by nearly a half turn, and at gimbal lock. A re-parameterized rotation
  vector denotes the same rotation and has a length of at most half a turn.""",
  ["inputs"], "all rotations (quaternions of both signs), all rotation vectors, all angles",
  "the tests visit few rotations; branches on trace, on the largest diagonal entry, on small angles and on gimbal lock are hit by measure-small sets",
  [M + "quaternion.py", M + "matrix3.py", M + "euler.py", M + "expmap.py", M + "angle.py"],
  [("from_matrix/to_angle_axis/to_matrix", M + "quaternion.py"), ("XYZ Euler extraction", M + "euler.py"), ("exp/log/reparameterization", M + "expmap.py")],
  ["return values"],
  "round-trip oracle with branch-targeting generators",
  "Round trips are compared as rotations (q and -q equal). The exact half turn of expmap.log is known finding KF1.")
P("C03", "Spherical interpolation moves along the shortest arc at constant speed",
  """Interpolating between two rotations starts at the first, ends at the second and in between turns about one fixed
  axis at constant rate by the smaller angle between them, whatever the signs of the two quaternions. The interpolation
  parameter is clamped to [0,1] and the result is a unit quaternion.""",
  ["inputs"], "all pairs of unit quaternions (nearly equal, opposite sign, half a turn apart) and all parameters",
  "tests check a handful of pairs; the near-equal and negative-dot branches need particular pairs",
  [M + "quaternion.py"], [("slerp and lerp fallback", M + "quaternion.py")], ["return values"],
  "metamorphic relations (angle proportional to t) over generated pairs",
  "Relative angle is measured with an independent matrix algebra; the almost-equal branch is allowed its documented linear approximation.")
P("C04", "Rigid coordinate transforms form a group acting on points and vectors",
  """Composing, inverting and relating coordinate systems agrees with 4x4 homogeneous transformation matrices, for
  points, free vectors and inertia-like matrices. Long chains of compositions keep distances and unit rotations.""",
  ["inputs", "histories"], "all rigid transforms and composition chains of any length",
  "tests compose one or two fixed transforms; order mistakes cancel for commuting ones",
  [M + "coordsys.py"], [("concat/inverse/make_from_to/xform", M + "coordsys.py")], ["return values"],
  "differential oracle against homogeneous 4x4 matrices",
  "Random generic transforms so that order matters; trusts numpy linear algebra.")
P("C05", "Vector and matrix helpers meet their contracts",
  """Building a frame from a normal gives a right-handed orthonormal frame for every direction, the lexicographic
  comparisons form a strict total order, and orthonormalization returns a rotation spanning the same nested subspaces
  without changing its argument. Constructors and random generators return what their arguments describe.""",
  ["inputs"], "all non-zero normals, all triples of vectors with ties, all non-degenerate matrices",
  "tests try a few vectors; the order axioms and the frame property quantify over all of them",
  [M + "vector3.py", M + "matrix3.py"],
  [("make_orthonormal_vectors/less/greater", M + "vector3.py"), ("ortonormalize", M + "matrix3.py")], ["return values"],
  "order axioms and frame invariants over generated vectors with many ties",
  "Invariant oracles; random helpers are only checked for range and shape.")
P("C06", "Rotation-vector derivatives are the derivatives of the exponential map",
  """The derivatives of the quaternion and of the rotation matrix with respect to each rotation-vector component agree
  with finite differences, near zero rotation and far from it. Integrating the rate of a rotation vector given an
  angular velocity turns the rotation by that angular velocity.""",
  ["inputs"], "all rotation vectors up to several turns and all angular velocities",
  "tests compare few points; the Taylor branch near zero and re-parameterized vectors need particular lengths",
  [M + "expmap.py"], [("dQdv_i/dRdv_i/dvdt", M + "expmap.py")], ["return values"],
  "differential oracle (high-order finite differences of an independent exponential)",
  "Tolerances follow the finite-difference error; rotation-vector rates for lengths within 1e-4 of zero but not zero are not claimed (cancellation).")
P("C07", "Bivariate polynomials evaluate, differentiate, print and fit correctly",
  """Values and partial derivatives of a polynomial equal those of its monomial sum at every point, its printed form
  denotes the same polynomial, and fitting reproduces the data (and the generating polynomial) whenever the sample
  points determine it.""",
  ["inputs"], "all orders up to 4, coefficients (including 0, 1 and negative), points and sample sets in general position",
  "tests use small fixed polynomials; coefficient/monomial order errors hide behind symmetric cases",
  [M + "polynomial.py"], [("compute_value/derivatives/interpolation/to_str", M + "polynomial.py")], ["return values and text"],
  "reference evaluation, print/parse round trip, interpolation round trip",
  "The all-zero polynomial prints as empty text and is excluded from the text round trip.")
P("C08", "Text notation for vectors and rotations is read exactly or refused",
  """Every well-formed text for a vector, quaternion, rotation or random range yields exactly the numbers written, in any
  letter case and spacing, and malformed text is refused instead of being read as something else.""",
  ["inputs"], "all texts of the documented notation, and single-defect mutations of them",
  "tests use a few literals; the space of number formats and malformed texts is unbounded",
  [M + "vector3.py", M + "quaternion.py", "rainbow/util/parse_string.py"],
  [("number pattern", "rainbow/util/parse_string.py"), ("from_string", M + "vector3.py"), ("from_string", M + "quaternion.py")],
  ["return values and raised errors"],
  "grammar-based generation with round-trip and rejection oracles",
  "The grammar follows the documented notation and the tests; mutations are limited to ones that are malformed under any reading.")
P("C09", "Polar, eigen and principal-direction decompositions reconstruct their input",
  """Polar decomposition returns a proper rotation and a symmetric stretch whose product is the input, single or
  batched, and refuses what it cannot decompose. The direction of most variance of a point cloud maximises the variance
  and the special functions agree with their definition at and around zero.""",
  ["inputs"], "all invertible deformations, all point clouds, all real arguments",
  "tests use few matrices; repeated stretches, near-singular ones and reflections need generated inputs",
  [M + "matrix3.py", M + "functions.py", M + "vector3.py"],
  [("polar_decomposition", M + "matrix3.py"), ("sinc", M + "functions.py"), ("direction_of_most_variance", M + "vector3.py")], ["return values"],
  "reconstruction and optimality invariants",
  "Trusts numpy/scipy linear algebra for the reference values.")

G = "rainbow/geometry/"
P("C10", "Barycentric coordinates locate points in edges, triangles and tetrahedra",
  """The barycentric coordinates of a point sum to one and reproduce the point (its closest point on the line or plane
  for edges and triangles), for simplices of either orientation. Inside tests accept exactly the points whose
  coordinates are not negative, and the coordinate gradients of a tetrahedron are the derivatives of its coordinates.""",
  ["inputs"], "all well-shaped simplices and all points in or around them",
  "tests use a few regular simplices and round weights; orientation branches and round-off at the sum-to-one test escape them",
  [G + "barycentric.py"], [("compute_barycentric_* / is_inside_*", G + "barycentric.py")], ["return values"],
  "reconstruction round-trip over generated simplices and weights",
  "Points closer than 1e-6 to a face may be classified either way except for exactly representable weights.")
P("C11", "A regular grid interpolates its node values and their gradient",
  """Sampling a grid anywhere in a cell returns the trilinear interpolation of the cell's node values and its exact
  gradient, and extrapolates from the closest cell outside. Node indices, coordinates, cells, the inside test with a
  boundary width, and refusal of invalid grids follow the documented layout.""",
  ["inputs"], "all grids (any corner, spacing and resolution per axis), node values and sample points",
  "tests use cubic grids centred on the origin and fields linear in one variable, for which wrong local coordinates cancel",
  [G + "grid3.py"], [("get_value/get_gradient/get_enclosing_cell_idx/is_inside", G + "grid3.py")], ["sampled values", "raised errors"],
  "reference interpolation and exact-field oracle", "Anisotropic grids up to 6 nodes per axis.")
P("C12", "A mesh's distance grid holds its signed distance field",
  """The grid built from a closed mesh covers the mesh plus the boundary width and stores at every node the Euclidean
  distance to the surface, negative inside and positive outside. Sampled values between nodes stay within a cell
  diagonal of the true distance.""",
  ["inputs"], "all closed oriented meshes (convex or not), resolutions and boundary widths",
  "the tests contain no distance-field test",
  [G + "grid3.py"], [("create_signed_distance", G + "grid3.py")], ["grid corners and node values"],
  "differential oracle (brute-force point-triangle distance and winding number)",
  "Meshes up to a few dozen triangles; the third-party distance routine is inside the tested path.")
P("C13", "Mean curvature is the divergence of the field's unit normal, within resolution",
  """The curvature computed from a distance field equals the divergence of its normalized gradient at interior nodes,
  limited to what the grid spacing can resolve, without changing the field. For spheres it approaches two over the
  radius, with the sign of the field.""",
  ["inputs"], "all fields and anisotropic grids",
  "there is no unit test of the curvature",
  [G + "mean_curvature.py"], [("create_from_sdf", G + "mean_curvature.py")], ["curvature grid values"],
  "analytic oracle on quadratic fields (central differences are exact)",
  "Outer-layer nodes and nodes with a nearly vanishing gradient are only range-checked.")
P("C14", "Bounding-volume-hierarchy traversal finds exactly the overlapping pairs",
  """Traversing two hierarchies reports every pair of elements whose bounding volumes overlap, each exactly once and no
  other pair, for any tree chunking and after any deformation followed by a refit. Volumes are tight around their
  vertices plus the envelope, and volumes of different kinds are not mixed.""",
  ["inputs", "histories"], "all element soups, chunk sizes, envelopes, and refit histories",
  "the tests have no traversal test; missing pairs only show as missed contacts in particular configurations",
  [G + "kdop.py", G + "kdop_bvh.py"], [("traversal/refit/make_bvh", G + "kdop_bvh.py"), ("overlap/union/make", G + "kdop.py")],
  ["list of reported pairs"], "differential oracle (brute-force slab intervals) over histories of deformations",
  "Pairs touching within 1e-9 may go either way.")
P("C15", "Axis-aligned boxes are tight and their overlap test is exact",
  """The box of a point set is its smallest enclosing axis-aligned box, and two boxes overlap exactly if their intervals,
  both grown by the boundary width, meet along every axis. The test is symmetric and changes nothing.""",
  ["inputs"], "all point sets, box pairs (including touching ones) and widths",
  "tests check three hand-made pairs", [G + "aabb.py"], [("is_overlap/create_from_vertices", G + "aabb.py")], ["return values"],
  "exact-arithmetic oracle on quarter-integer boxes", "Exact for representable coordinates.")
P("C16", "The spatial hash returns what shares a cell in the current time step",
  """Inserting an object returns every object inserted earlier into the same cell during the same time step and nothing
  from older steps, whatever the history of inserts. Hash values are stable and the proposed cell size follows the mean
  edge length.""",
  ["inputs", "histories"], "all insert histories over cells and time steps, all table sizes, all meshes",
  "the test inserts two objects in one step; stale content needs histories over several steps",
  [G + "spatial_hashing.py"], [("insert / lazy clear", G + "spatial_hashing.py")], ["returned object lists"],
  "model-based histories against a dictionary model",
  "The huge random offset table is replaced by a small random one; other cells with an equal hash may add objects of the current step.",
  [("cell time stamp", "step in which the cell content was written", G + "spatial_hashing.py")])
P("C17", "Generated surface shapes are closed, outward oriented and correctly sized",
  """Every shape generator and the convex hull return a closed, connected, consistently outward-oriented triangle surface
  of the right topology with no unused vertices, whose dimensions and volume are those of the requested shape. Profiles
  or slice counts that cannot enclose a volume are refused.""",
  ["inputs", "configurations"], "all dimensions and resolutions, all point clouds",
  "only one convex hull is tested; index arithmetic of the sweeps depends on resolutions",
  [G + "surface_mesh.py"], [("profile_sweep and create_* functions", G + "surface_mesh.py")], ["vertex and triangle arrays"],
  "topological invariants and exact polyhedral volume", "Resolutions up to 14 slices and 10 segments.")
P("C18", "Mesh transforms move the geometry and never change the shape's connectivity",
  """Translating, rotating and scaling a mesh apply exactly that affine map to every vertex, scaling to unit size keeps
  centre and proportions, and sorting along an axis only renumbers: the same elements in space, ascending along the
  axis. A mesh object never writes to the arrays it was made from.""",
  ["inputs", "histories"], "all meshes (surface and volume), transforms, axes and transform sequences",
  "no unit test covers them; renumbering errors need non-symmetric meshes",
  [G + "surface_mesh.py"], [("translate/rotate/scale/axis_sort", G + "surface_mesh.py")], ["mesh arrays"],
  "metamorphic relations (affine map, set equality of elements)", "Floating-point vertex arrays.")
P("C19", "Tetrahedral meshes: elements, adjacency, boundary and subdivision are consistent",
  """Generated and grid-based meshes fill their domain with positive non-overlapping elements; neighbours, boundary
  triangles with owners, vertex-to-element lookups, volumes and element surfaces are exactly those of the mesh, with
  outward orientation. Subdivision splits each element into eight equally large, equally oriented ones without cracks.""",
  ["inputs"], "all positively oriented tetrahedral meshes, resolutions and sizes",
  "soft-body tests use a single small beam; adjacency and subdivision are not tested",
  [G + "volume_mesh.py"], [("compute_neighbors/compute_surface/create_loop_subdivision/circulator", G + "volume_mesh.py")],
  ["mesh arrays"], "differential oracle (brute-force adjacency) and conservation invariants",
  "Beams, Delaunay meshes and subsets of them, with shuffled numbering.")
P("C20", "Tetrahedron volume, spheres and sample lattices are geometrically exact",
  """Signed volume and orientation agree with the determinant under every node order, the circumscribed sphere passes
  through all nodes and the inscribed sphere touches all faces. Sample points are the full barycentric lattice, interior
  ones exactly its strictly interior part, and too few layers are refused.""",
  ["inputs"], "all well-shaped tetrahedra and lattice sizes", "there are no unit tests of these functions",
  [G + "tetrahedron.py"], [("sphere and sample functions", G + "tetrahedron.py")], ["return values"],
  "geometric invariants and combinatorial reference", "Lattices of 2 to 9 layers.")

R = "rainbow/simulators/prox_rigid_bodies/"
P("C21", "Mass, centre of mass, inertia and body frame are those of the enclosed solid",
  """For every closed outward-oriented mesh and density, the computed mass, centre of mass and inertia tensor equal the
  volume integrals of the solid. The body frame has its origin at the centre and right-handed orthonormal principal axes
  (also for repeated principal moments, tiny and light solids), and maps back to the model frame; create_shape puts the
  mesh into that frame. World-frame inertia is R I R^T; meshes without positive volume are refused.""",
  ["inputs"], "all closed meshes of any genus and symmetry, sizes from 1e-3, densities and orientations",
  "tests use boxes and spheres in their own frame", [R + "mass.py", R + "api.py"],
  [("polynomial surface integrals and principal axes", R + "mass.py"), ("create_shape/set_mass_properties", R + "api.py")],
  ["return values", "engine.shapes, body.mass/inertia"], "reference model (tetrahedral decomposition), scaling laws",
  "Solids include tori, L-shapes, hulls and highly symmetric bodies; relative tolerance 1e-6.")
P("C22", "The rigid-body API is a consistent registry of uniquely named objects",
  """Objects are stored under unique names with the given values; duplicates, unknown names and invalid values are refused
  and leave the engine unchanged. Stored arrays are not aliased with arguments, defaults or other engines; index numbers
  stay consecutive. Generated unique names never repeat; surface interactions are symmetric in the two materials.""",
  ["histories"], "all sequences of API calls, valid and invalid",
  "tests call each function once on a fresh engine", [R + "api.py", R + "types.py"],
  [("create_*/set_*/connect_* registry", R + "api.py"), ("Engine, SurfacesInteractionStorage", R + "types.py")],
  ["engine dictionaries", "raised exceptions"], "model-based operation sequences against a dictionary model",
  "Sequences of up to about 25 calls.")
P("C23", "Placing bodies and hinges, and the flat state vectors, describe the same world",
  """Positions and orientations given for the body or for the model frame place the mesh accordingly in any call order.
  Hinges are created with coinciding sockets and axes in all three modes. The state vectors hold x, u, external forces and
  inverse masses of the bodies; updates integrate positions and unit quaternions, keep fixed bodies unmoved, and copying
  state out and back loses nothing; energies follow the formulas.""",
  ["inputs", "histories"], "all poses, off-centre model frames, body types, masses, velocities and forces",
  "tests use identity poses and single bodies", [R + "api.py", R + "state_storage.py", R + "types.py"],
  [("set_position/set_orientation/create_hinge/set_hinge", R + "api.py"), ("StateStorage", R + "state_storage.py")],
  ["body.r, body.q, joint frames, state vectors"], "reference model of rigid placement and state vectors",
  "Gravity in the potential energy is asserted for connected bodies only.")
P("C24", "Rigid simulation advances exactly the requested time by the stated scheme",
  """simulate(T) takes ceil(T/h) steps of at most h that add up to T, for decimal fractions too, and two calls equal one.
  Bodies that touch nothing follow the semi-implicit Euler scheme under gravity, damping and gyroscopic forces; fixed
  bodies stay. Forces, parameters and states changed between runs take effect. Logs have one entry per step when profiling. Non-positive times and missing steppers are refused.
  The soft-body simulate function takes the same number of steps.""",
  ["inputs", "histories"], "all times, step sizes, forces, spins and body types of separated bodies",
  "tests simulate a few whole steps of simple scenes", [R + "api.py", R + "steppers.py", R + "state_storage.py"],
  [("simulate", R + "api.py"), ("SemiImplicitStepper", R + "steppers.py")], ["body state, engine log"],
  "differential against a reference integrator; metamorphic splitting",
  "Up to a few dozen steps per case.")
P("C25", "Rigid contact points are geometrically sound and none is missed for deep corners",
  """Every reported contact lies on the surface of one body, carries a unit outward normal of the other and the signed
  distance to it, and is reported once. Corners clearly inside another convex body give a penetrating contact, separated
  bodies give none, and the contacts of a world are those of its pairs, whatever the order the bodies were created in.""",
  ["inputs"], "all pairs and worlds of closed bodies in all relative poses",
  "tests place two boxes in one pose", [R + "collision_detection.py", "rainbow/geometry/grid3.py"],
  [("broad, narrow phase, contact optimisation, reduction", R + "collision_detection.py")], ["engine.contact_points"],
  "geometric oracle (exact distances), metamorphic world-equals-pairs relation",
  "Accuracy of the distance grid (resolution 10-16) is granted; missed contacts are judged for convex corners deeper than a grid cell.")
P("C26", "Contact impulses obey non-penetration, Coulomb friction and momentum balance",
  """The contact problem describes true relative velocities with restitution, friction and stabilisation terms of the pair's
  materials. Solutions have non-negative normal impulses, friction within the Coulomb ball and opposing sliding, and are
  internal (linear and angular momentum conserved, fixed bodies unaffected). Blocks stick, slide, brake and bounce
  as Coulomb's law and the restitution coefficient prescribe. Profiling does not change the solution and records why the iteration stopped.""",
  ["inputs"], "all contact configurations, masses, velocities and materials",
  "tests check matrix sizes for two boxes", [R + "constraints/contacts.py", R + "gauss_seidel_solver.py", R + "prox_operators.py"],
  [("Contacts", R + "constraints/contacts.py"), ("solve", R + "gauss_seidel_solver.py")],
  ["Jacobian, right-hand side, impulses, body velocities"], "physical invariants, complementarity oracle, analytic solutions",
  "The iterative solver may stop before convergence: full Coulomb conditions are decided for uncoupled contacts, converging systems and by majority.")
P("C27", "Hinges remove exactly five degrees of freedom and joint errors shrink",
  """The hinge constraint measures relative anchor velocity and off-axis spin of the two bodies only. Solved velocities
  keep anchors and axes together, impulses are internal, fixed bodies unaffected, also while hinged bodies touch others
  (contacts and hinges are solved as one system). A hinged body swings like a compound
  pendulum. With pre-stabilisation joint errors shrink by the gap reduction factor per step, without it they stay.""",
  ["inputs", "histories"], "all hinged pairs, chains and loops, poses, masses, velocities, broken joints",
  "no unit test solves or stabilises a hinge", [R + "constraints/hinges.py", R + "steppers.py", R + "gauss_seidel_solver.py"],
  [("Hinges", R + "constraints/hinges.py")], ["Jacobian, impulses, body motion"],
  "analytic oracle (pendulum, error decay), physical invariants",
  "Velocities of solved joints are decided for well-conditioned systems.")
P("C28", "Post-stabilisation removes penetrations and changes nothing else",
  """Position corrections are repulsive, frictionless, conserve the centre of mass, leave fixed bodies alone and solve the
  complementarity problem of the gaps deeper than the threshold. They lift sunk blocks to the surface, never push bodies
  together and never change velocities; without penetration or when off, nothing is corrected.""",
  ["inputs"], "all penetrating contact configurations and thresholds", "no unit test turns post-stabilisation on",
  [R + "constraints/post_stabilization.py", R + "steppers.py"],
  [("PostStabilization", R + "constraints/post_stabilization.py"), ("_apply_post_stabilization", R + "steppers.py")],
  ["positions and velocities after a step"], "complementarity oracle, metamorphic on/off relation",
  "Exact values for weakly coupled contacts and faces exactly represented by the distance grid.")
PC = "rainbow/simulators/proximal_contact/"
P("C29", "Proximal operators are projections onto the friction sets",
  """prox_sphere returns the closest point of the ball with radius mu times the normal force, zero without normal force,
  is idempotent and non-expansive; prox_origin returns zero; prox_ellipsoid returns the closest point of the
  ellipsoid with the given semi-axes, and equals the sphere or the origin for equal or zero coefficients.""",
  ["inputs"], "all points, normal forces and friction coefficients", "operators have no unit tests",
  [PC + "proximal_operators.py", R + "prox_operators.py"], [("prox_*", PC + "proximal_operators.py")], ["return values"],
  "optimality conditions of the projection", "Semi-axis ratios up to about 20, accuracy of the bisection granted.")
P("C30", "All contact solver schemes solve the same contact problem",
  """Gauss-Seidel, parallel Gauss-Seidel, Jacobi and hybrid Jacobi return repulsive normal impulses, friction within the
  Coulomb ball and opposing sliding, and the complementarity solution where it is unique, with any number of cores. A Gauss-Seidel sweep
  uses the newest impulses of all contacts treated before, a Jacobi sweep those of the previous one. The
  problem is not modified, profiling does not change the solution and records it truthfully, unknown schemes are refused.""",
  ["inputs", "schedules"], "all contact problems, schemes, tolerances and iteration limits",
  "soft-body tests run one scheme on one trivial contact", [PC + "solver_interface.py", PC + "gauss_seidel_solver.py", PC + "jacobi_solver.py", PC + "prox_solvers.py"],
  [("SolverInterface.solve", PC + "solver_interface.py"), ("sweep", PC + "gauss_seidel_solver.py"), ("sweep", PC + "jacobi_solver.py")],
  ["impulses, statistics"], "analytic and complementarity oracles, differential between schemes",
  "Convergence is granted for well-conditioned problems, judged by majority otherwise.")
P("C31", "Contact graphs and colourings are correct and proper",
  """Two contacts are coupled exactly if they share a rigid body or a soft-body node. Greedy and random colourings put every
  contact into exactly one colour without coupled contacts in the same colour, with the right block ranges; unknown body
  types are refused.""",
  ["inputs"], "all contact graphs, random choices and iteration limits", "one path graph of five nodes is tested",
  [PC + "blocking.py"], [("build_contact_graph, greedy_graph_coloring, random_graph_coloring", PC + "blocking.py")],
  ["return values"], "exhaustive check of the colouring condition, set-based reference", "Up to 14 contacts.")
B = "rainbow/simulators/prox_soft_bodies/"
P("C32", "Constitutive models are consistent hyperelastic materials",
  """For SVK, SNH and COR the first Piola-Kirchhoff stress is the derivative of the energy density, both are
  frame-indifferent and isotropic, undeformed material is a stress-free
  energy minimum (zero for SVK and COR), and small strains follow
  Hooke's law of the Lame parameters derived from Young modulus and Poisson ratio. Arguments are not modified.""",
  ["inputs"], "all deformation gradients (inverted ones where defined) and elastic moduli",
  "a few fixed gradients are tested for some models", [B + "mechanics.py"],
  [("SVK, SNH, COR", B + "mechanics.py"), ("first_lame, second_lame", B + "mechanics.py")], ["return values"],
  "numerical derivative oracle, metamorphic rotations, linearised reference", "Principal stretches 0.5 to 1.8, E up to 5e9.")
P("C33", "FEM forces, masses and energies are those of the continuum",
  """Elastic forces of soft bodies are the negative gradient of the total elastic energy and have no net force or torque; affine
  maps have their matrix as deformation gradient; mass matrices are consistent or lumped and W is their inverse; loads
  put area times load on faces inside the region; gravity, damping, Dirichlet conditions and energies match definitions.""",
  ["inputs"], "all valid tetrahedral meshes, deformations, velocities, materials and boundary regions",
  "the soft-body test classes are not collected by unittest and assert nothing",
  [B + "solver.py", B + "api.py"], [("Native, ElementArrayUtil", B + "solver.py"), ("compute_*_forces, compute_*_energy", B + "solver.py")],
  ["assembled forces, matrices, energies"], "numerical gradient and dense reference oracles",
  "Meshes up to about 60 elements; positively oriented elements.")
P("C34", "Soft-body stepping integrates the equations of motion",
  """simulate() advances soft bodies by semi-implicit Euler with all forces over exactly the requested time, keeps fixed bodies and Dirichlet
  nodes in place, conserves momentum, commutes with rotations and does not depend on the order of set-up calls or on when
  bodies and materials are added; materials, loads and conditions changed between runs take effect; undeformed bodies fall like particles and the log is truthful.""",
  ["histories"], "all worlds of soft bodies, materials, loads, constraints and call orders",
  "no executed unit test takes a soft-body step",
  [B + "solver.py", B + "api.py"], [("SemiImplicitStepper", B + "solver.py"), ("simulate, set_material, set_type", B + "api.py")],
  ["positions, velocities and log after steps"], "independent re-implementation of the integrator, conservation laws, metamorphic set-ups",
  "Up to 3 bodies and 60 steps below the stability limit.")
P("C35", "Soft-body contact points are where and as bodies touch",
  """Contact points are generated exactly where different soft bodies are within the envelope, with either broad phase, and lie on both bodies
  by their barycentric weights, with unit normals out of body A in the deformed configuration and true gaps, none reported twice, in a world
  of any size. A body touches itself (with spatial hashing) only where its surface cuts itself, and there it does. The Jacobian gives relative contact velocities, friction looks up the pair.""",
  ["inputs"], "all poses and mild deformations of bodies, both broad phases and repeated queries", "no executed unit test covers it",
  [B + "collision_detection.py", B + "solver.py", B + "types.py"],
  [("run_collision_detection", B + "collision_detection.py"), ("compute_jacobian_matrix", B + "solver.py")],
  ["engine.contact_points, Jacobian"], "exact box distance oracle, differential between broad phases, metamorphic scaling, exact triangle cuts of two pieces of a body",
  "Values near box edges are limited by the grid resolution; self-contact is judged between rigidly moved pieces of a body.")
P("C36", "Soft-body contact impulses stop penetration with Coulomb friction",
  """After a step touching soft bodies do not approach, impulses push, friction opposes sliding within the coefficient, separating bodies are not
  affected, momentum is conserved, fixed bodies and Dirichlet nodes act as immovable and stop thrown bodies, and post-stabilisation
  removes penetration beyond the threshold without changing velocities or constrained nodes.""",
  ["inputs", "histories"], "all impacts of bodies with rest shapes, friction coefficients and constraints", "no executed unit test covers it",
  [B + "solver.py", "rainbow/simulators/proximal_contact/prox_solvers.py"],
  [("SemiImplicitStepper.step, apply_post_stabilization", B + "solver.py")],
  ["positions and velocities after steps"], "conservation and complementarity oracles, metamorphic on/off relation",
  "Tight solver settings; residual approach up to 5 percent of the impact speed is granted to coupled contacts.")
IK = "rainbow/simulators/inverse_kinematics/"
P("C37", "The soft-body scene API is a consistent registry",
  """Names of soft bodies, materials and loads are unique, unknown names and invalid values are refused without changing anything, stored values are
  those given and not aliased to arguments or results, friction is looked up for the pair of materials, and a body has exactly the
  elements, boundary and owners of its mesh. Engines and default settings are independent of each other.""",
  ["histories"], "all sequences of API calls, valid and invalid, on one or several engines",
  "no executed unit test calls the soft-body API", [B + "api.py", B + "types.py"],
  [("create_*, set_*, get_*", B + "api.py"), ("Engine, Parameters", B + "types.py")], ["return values and engine content"],
  "stateful model-based testing against a dictionary model", "Histories of up to about 25 calls.")
P("C38", "Inverse kinematics derivatives are exact",
  """Forward kinematics composes the joint transforms along the tree in every Euler convention. Jacobian, gradient and Hessian of the
  goal objective are its exact derivatives, finite-difference versions converge to them and leave the pose unchanged, descent
  directions lower the objective, and degrees and radians convert into each other.""",
  ["inputs"], "all skeleton trees, Euler conventions, poses, tools and goals",
  "unit tests sample chains of a few bones in one pose and one convention", [IK + "api.py", IK + "types.py"],
  [("update_skeleton, update_bone", IK + "api.py"), ("compute_jacobian, compute_gradient, compute_hessian", IK + "api.py")],
  ["bone frames, objective and derivatives"], "independent kinematics with complex-step derivatives as oracle",
  "Skeletons of up to 7 bones (Hessians up to 5).")
P("C39", "Skeletons, chains and joint angles are consistent",
  """Skeletons grow bone by bone into trees with consecutive indices, invalid parents or conventions are refused without change, the chains
  are exactly the root-to-leaf paths, angles are three entries per bone whether set singly or as a vector, and the text form
  lists every bone. Skeletons never share state and updating is idempotent.""",
  ["histories"], "all sequences of building and posing skeletons",
  "unit tests build one or two fixed skeletons", [IK + "api.py", IK + "types.py"],
  [("create_root, add_bone, make_chains, set_joint_angles, get_joint_angles", IK + "api.py"), ("Bone, Skeleton, Chain", IK + "types.py")],
  ["skeleton content, chains, angle vectors"], "stateful model-based testing against a tree model", "Skeletons of up to 14 bones.")
P("C40", "Priority queue, timer and array comparison do what they say",
  """Popping the priority queue returns the entry with the smallest current value after any history of pushes and updates; a timer's elapsed
  and total times are the last and the sum of all intervals; the array comparison of the test tools accepts exactly arrays which
  agree to the stated decimals. Instances do not share state.""",
  ["histories", "inputs"], "all histories of queue and timer calls; all arrays", "no unit test covers these helpers although other tests trust them",
  ["rainbow/util/heap.py", "rainbow/util/timer.py", "rainbow/util/test_tools.py"],
  [("Heap", "rainbow/util/heap.py"), ("Timer", "rainbow/util/timer.py"), ("is_array_equal", "rainbow/util/test_tools.py")],
  ["return values"], "stateful model-based testing against dictionaries and outer clocks", "Keys are mutually comparable.")
P("C41", "Recorded USD scenes replay exactly what was recorded",
  """A scene recorded as USD reads back, after saving in any USD format and reopening, with the same meshes, topology, positions at every
  keyframe, rigid motions and time range, and reads between keyframes interpolate. Unknown names are refused, recorders are
  independent, and saving does not end the recording.""",
  ["histories"], "all histories of adding and moving meshes and rigid bodies, all USD file types",
  "unit tests record a single mesh with one motion", ["rainbow/util/USD.py"], [("USD", "rainbow/util/USD.py")],
  ["content of reopened USD files"], "round trip through saved files against a recorded history", "Compared in single precision.")
S = R + "scenes/"
P("C42", "Scene generators build what their parameters describe",
  """Generated buildings, piles, lattices, chain mail, chains and gear trains have the announced number of bodies, dimensions, materials and
  masses, return exactly the names of the new bodies, do not overlap, rest on each other down to the ground (a pillar's stones flush, in a straight taper; arches, domes, towers and colosseums as symmetric as their parameters), move rigidly with the
  given pose, interlock or mesh as gears must, and impossible parameters are refused.""",
  ["inputs"], "all sizes, counts, densities, materials and poses of the scene generators",
  "no unit test creates any scene", [S + "create_arch.py", S + "create_tower.py", S + "create_dome.py", S + "create_gear_train.py", S + "create_lattice.py"],
  [("create_*", S + "create_scene.py"), ("GearFactory", S + "create_gear_train.py")], ["bodies, hinges and shapes of the engine"],
  "geometric oracles: convex separation by linear programming, support graph, involute flanks",
  "Parameters for which stones are convex and carry each other; at most a few hundred stones.")
P("C43", "Exported scene files describe the scene",
  """write_xml() writes every body (pose, velocities, mass, inertia, shape, material, fixed flag, applied forces), force, shape (vertices and
  triangles), surface interaction, hinge (links, world origin and axis) and parameter of the engine, under its own name and in order, to the
  number of digits numpy prints; the file is well-formed XML for any names, and exporting leaves the engine as it was.""",
  ["inputs"], "all engines: names with markup characters, materials, forces, moved mechanisms, changed parameters, simulated scenes",
  "no unit test exports a scene", [S + "write_xml.py"], [("write_xml", S + "write_xml.py")], ["the written file, read back by an XML parser"],
  "round trip through an independent reader", "Material names without white space; bodies with shapes; hinges that are set.")
P("C44", "Imported robots are assembled at the zero configuration",
  """read_urdf() makes one body per link with geometry and one hinge per revolute joint; body frame, mass, inertia, the link's (scaled) mesh
  and the joint's origin and axis sit in the world where the chain of link, joint, collision and inertial frames puts them, whatever the
  order of elements, omitted defaults or virtual links; the robot scene loads the bundled robot.""",
  ["inputs"], "all trees of mesh links and revolute joints with arbitrary frames, scales, omitted attributes and element orders",
  "no unit test imports a robot", [S + "read_urdf.py", S + "create_scene.py"], [("read_urdf", S + "read_urdf.py"), ("create_scene", S + "create_scene.py")],
  ["bodies, shapes and hinges of the engine"],
  "generated descriptions against an independent forward-kinematics reading of the same description",
  "Only what the importer supports: meshes, revolute joints, one tree, inertia given in the body frame.")
P("C45", "Mathematical and geometric helpers are pure functions",
  """Every helper of the mathematics, geometry, mass and constitutive modules is a function of the values of its arguments: it leaves them
  alone (except those whose documented purpose is to change their object), returns the same bits when called again or after other calls, hands out
  results of their own, accepts the same numbers in any array layout, gives the same result when one object is passed twice, and draws
  no random numbers; changing one object in place changes no other.""",
  ["inputs", "histories"], "all arguments, layouts and orders of calls of about a hundred helper functions",
  "unit tests call each function once with fresh arrays and look only at the return value",
  [M + "quaternion.py", M + "matrix3.py", M + "vector3.py", G + "surface_mesh.py", G + "volume_mesh.py", G + "grid3.py", R + "mass.py", B + "mechanics.py"],
  [("slerp, ortonormalize, from_matrix", M + "*.py"), ("Mesh, compute_surface, create_beam, get_nodes_array", G + "*.py")],
  ["arguments after the call, results of repeated calls, shared memory"],
  "metamorphic relations between calls: repeated, interleaved, in other array layouts, with aliased arguments",
  "coordsys.make() refers to its arguments and expmap.reparameterization() returns small vectors as they are, both on purpose.")
P("C46", "A simulation depends on nothing but the scene and its state",
  """Rigid and soft simulations repeat bit for bit: building the scene again, simulating other engines in between, switching profiling on and
  cutting the time into other calls change nothing; a fresh engine put into a state of an old one, or the old one put back into it,
  goes on as the old one did, also after bodies were moved, turned, retyped, reloaded, given other shapes, materials or hinges; collision
  detection finds in any state the contacts a fresh engine finds.""",
  ["histories"], "all histories of simulating, restoring and changing random heaps of rigid and soft bodies",
  "unit tests simulate at most a few steps of one scene and never compare two histories with the same state",
  [R + "api.py", R + "steppers.py", R + "collision_detection.py", B + "solver.py", B + "collision_detection.py", "rainbow/geometry/spatial_hashing.py"],
  [("simulate, SemiImplicitStepper", R + "api.py, steppers.py"), ("run_collision_detection, HashGird", B + "collision_detection.py")], ["motion and contacts of both engines"],
  "differential testing: two histories which reach the same state", "Compared bit for bit; the state is (r, q, v, w) or (x, u).")
