"""C45: the helper functions of the mathematics and geometry modules are functions of their arguments: they leave them
alone, keep no memory of earlier calls, hand out values of their own and do not care how an argument is stored."""
import copy
import inspect
import random
from pbt import *
import rainbow.math.angle as AN
import rainbow.math.coordsys as X
import rainbow.math.euler as EU
import rainbow.math.expmap as EX
import rainbow.math.functions as FN
import rainbow.math.matrix3 as M3
import rainbow.math.polynomial as PO
import rainbow.math.quaternion as Q
import rainbow.math.vector3 as V3
import rainbow.geometry.aabb as AB
import rainbow.geometry.barycentric as BC
import rainbow.geometry.grid3 as GR
import rainbow.geometry.kdop as KD
import rainbow.geometry.kdop_bvh as BV
import rainbow.geometry.mean_curvature as MC
import rainbow.geometry.spatial_hashing as SH
import rainbow.geometry.surface_mesh as SM
import rainbow.geometry.tetrahedron as TE
import rainbow.geometry.volume_mesh as VM
import rainbow.simulators.prox_rigid_bodies.mass as MA
import rainbow.simulators.prox_soft_bodies.mechanics as ME
import rainbow.simulators.prox_soft_bodies.solver as SO
import rainbow.simulators.proximal_contact.proximal_operators as PR


# ---------------------------------------------------------------- arguments
def rng(d):
    return np.random.RandomState(d.int(0, 10 ** 6))


def v3(d):
    return np.array(d(vec(3, -5, 5)))


def u3(d):
    return np.array(d(unit()))


def q4(d):
    return np.array(d(quat()))


def s(d, lo=-4.0, hi=4.0):
    return d(num(lo, hi))


def p(d, lo=0.1, hi=5.0):
    return d(num(lo, hi))


def m33(d):
    return rng(d).uniform(-2, 2, (3, 3))


def rot(d):
    return ref_matrix(q4(d))


def arr(d, n, m=None, lo=-2.0, hi=2.0):
    return rng(d).uniform(lo, hi, (n,) if m is None else (n, m))


def xf(d):
    return X.make(v3(d), q4(d))


def tri(d):
    r = rng(d)
    return [np.array(x) for x in (r.uniform(-1, 0, 3), r.uniform(-1, 1, 3) + [2, 0, 0], r.uniform(-1, 1, 3) + [0, 3, 0])]


def tet(d):
    r = rng(d)
    return [b + r.uniform(-0.2, 0.2, 3) for b in (np.zeros(3), np.array([1.0, 0, 0]), np.array([0, 1.0, 0]), np.array([0, 0, 1.0]))]


def poly(d):
    k = d.int(1, 3)
    P = PO.Poly(2, k)
    P.coefficients[:] = rng(d).uniform(-2, 2, P.terms)
    return P


def beam(d):
    V, T = VM.create_beam(d.int(2, 4), d.int(2, 3), d.int(2, 3), 2.0, 1.0, 1.0)
    return V, T


def box(d):
    V, T = SM.create_box(p(d, 0.5, 3), p(d, 0.5, 3), p(d, 0.5, 3))
    return np.array(V, dtype=float) + v3(d), np.array(T)


def grid(d):
    g = GR.Grid(np.array([-1.0, -2.0, -1.5]), np.array([1.0, 1.0, 1.5]), d.int(4, 6), d.int(4, 6), d.int(4, 6))
    g.values = rng(d).uniform(-1, 1, g.I * g.J * g.K)
    return g


def ball(d):
    g = GR.Grid(np.array([-1.0, -1.0, -1.0]), np.array([1.0, 1.0, 1.0]), 7, d.int(6, 8), 7)
    c, r = rng(d).uniform(-0.2, 0.2, 3), p(d, 0.3, 0.8)
    GR.eval_on_grid(g, lambda p: np.linalg.norm(p - c) - r)
    return g


def kdop(d):
    return KD.make(4, arr(d, 5, 3))


def kdops(d):
    k = d.pick([3, 4])
    return KD.make(k, arr(d, 5, 3)), KD.make(k, arr(d, 4, 3))


def bvh(d):
    V, T = box(d)
    return BV.make_bvh(V, T, 4, d.int(2, 8))


def aabbs(d):
    return AB.AABB.create_from_vertices(arr(d, 4, 3)), AB.AABB.create_from_vertices(arr(d, 3, 3)), abs(s(d))


def F33(d):
    return np.eye(3) + 0.3 * rng(d).uniform(-1, 1, (3, 3))


def lame(d):
    return p(d, 1, 100), p(d, 1, 100)


def mass_arrays(d):
    V, T = beam(d)
    return p(d, 1, 9), arr(d, len(T), lo=0.1), T, d.bool()


def elems(d):
    V, T = beam(d)
    return len(V), T, rng(d).uniform(-1, 1, (len(T), 4, 4, 3, 3))


def deformed(d):
    V, T = beam(d)
    return V + 0.05 * rng(d).uniform(-1, 1, V.shape), T


def elastic(d):
    V, T = beam(d)
    x = V + 0.05 * rng(d).uniform(-1, 1, V.shape)
    inv = SO.Native.compute_inverse_D0(V, T)
    F = SO.Native.compute_deformation_gradient(x, T, inv)
    return x, T, SO.Native.compute_outward_face_vectors(V, T), F, 10.0, p(d, 1, 20), d.pick([ME.SVK, ME.COR, ME.SNH]).pk1_stress


def profile(d):
    n = d.int(3, 6)
    r = rng(d).uniform(0.2, 1, n)
    r[0] = r[-1] = 0
    return [np.array([r[i], i - n / 2, 0.0]) for i in range(n)]


def hull_points(d):
    return arr(d, d.int(5, 12), 3)


def scattered(d):
    o = d.int(1, 3)
    n = (o + 1) * (o + 2) // 2 + d.int(0, 6)
    return o, arr(d, n, 2), arr(d, n, d.int(1, 3))


FUNCS = {}


def F(fn, *gens, name=None, whole=None, bound=False):
    """a function and the generators of its arguments (or one generator of all of them)"""
    FUNCS[name or fn.__module__.replace("rainbow.", "") + "." + fn.__name__] = (fn, gens, whole)


for f in (AN.radians_to_degrees, AN.degrees_to_radians):
    F(f, s)
F(X.make, v3, q4, name="math.coordsys.make")
F(X.xform_point, xf, v3), F(X.xform_vector, xf, v3), F(X.xform_matrix, xf, m33)
F(X.concat, xf, xf), F(X.inverse, xf), F(X.make_coordsys_from_to, xf, xf)
F(EU.make_euler_xyz_from_matrix, rot), F(EU.make_euler_xyz_from_quaternion, q4)
for f in (EX.reparameterization, EX.exp, EX.to_quaternion, EX.to_matrix):
    F(f, v3)
F(EX.log, q4), F(EX.to_expmap, q4), F(EX.dvdt, v3, v3)
F(EX.dQdv_i, v3, lambda d: d.int(0, 2)), F(EX.dRdv_i, v3, lambda d: d.int(0, 2))
F(FN.sinc, lambda d: d.pick([s(d) + 9.0, arr(d, 4)])), F(FN.PCA, hull_points), F(FN.direction_of_most_variance, hull_points)
for f in (M3.identity, M3.zero, M3.ones, V3.zero, V3.ones, V3.i, V3.j, V3.k, Q.identity):
    F(f)
F(M3.diag_from_array, v3), F(M3.diag, s, s, s), F(M3.make, *[s] * 9)
F(M3.make_from_rows, v3, v3, v3), F(M3.make_from_cols, v3, v3, v3), F(M3.star, v3)
F(M3.ortonormalize, lambda d: m33(d) + 5 * np.eye(3)), F(M3.Ru, s, u3), F(M3.Rx, s), F(M3.Ry, s), F(M3.Rz, s)
F(M3.polar_decomposition, lambda d: m33(d) + 4 * np.eye(3))
F(M3.polar_decomposition_array, lambda d: rng(d).uniform(-1, 1, (d.int(1, 4), 3, 3)) + 4 * np.eye(3))
F(PO.Helpers.number_of_monomial_terms, lambda d: 2, lambda d: d.int(1, 6), name="math.polynomial.number_of_monomial_terms")
F(PO.Helpers.poly2_make_monomial_powers, lambda d: d.int(1, 6), name="math.polynomial.poly2_make_monomial_powers")
F(PO.Helpers.make_vandermonde_matrix, lambda d: d.int(1, 3), lambda d: arr(d, 10, 2), name="math.polynomial.make_vandermonde_matrix")
F(PO.interpolate, whole=scattered), F(PO.evaluate, poly, lambda d: arr(d, 2)), F(PO.to_str, poly), F(PO.derivative, poly)
F(lambda P, x: P(x), poly, lambda d: arr(d, 2), name="math.polynomial.__call__"), F(str, poly, name="math.polynomial.__str__")
F(Q.make, s, s, s, s), F(Q.from_array, q4), F(Q.from_vector3, v3), F(Q.unit, lambda d: arr(d, 4) + 3.0), F(Q.Ru, s, u3)
F(Q.Rx, s), F(Q.Ry, s), F(Q.Rz, s), F(Q.to_matrix, q4), F(Q.from_matrix, rot), F(Q.conjugate, q4), F(Q.prod, q4, q4)
F(Q.rotate, q4, v3)
F(Q.prod_array, whole=lambda d: d.pick([(q4(d), arr(d, 3, 4)), (arr(d, 2, 4), q4(d))]))
F(Q.rotate_array, q4, lambda d: arr(d, d.int(1, 4), 3)), F(Q.to_angle_axis, q4)
F(Q.to_angle, whole=lambda d: (lambda u, t: (np.concatenate(([np.cos(t / 2)], np.sin(t / 2) * u)), u))(u3(d), s(d, -3, 3)))
F(Q.lerp, q4, q4, lambda d: s(d, 0, 1)), F(Q.slerp, q4, q4, lambda d: s(d, 0, 1)), F(Q.hat, q4)
F(Q.from_string, lambda d: d.pick(["identity", "rx:30", "ru:45.0:[1,2,3]", "[1,0.5,0,0]"]))
F(V3.make, s, s, s), F(V3.make_vec4, s, s, s, s), F(V3.make_orthonormal_vectors, u3), F(V3.cross, v3, v3)
F(V3.from_string, lambda d: d.pick(["[1,2,3]", "[0.5,-1.25,3]", "[4,5,6]"]))
F(V3.unit, lambda d: v3(d) + 7.0), F(V3.norm, v3), F(V3.max_abs_component, v3)
for f in (V3.less, V3.greather, V3.less_than_equal, V3.greather_than_equal):
    F(f, v3, v3)
F(AB.AABB, whole=lambda d: (lambda a, b: (np.minimum(a, b), np.maximum(a, b)))(v3(d), v3(d)), name="geometry.aabb.AABB")
F(AB.AABB.create_from_vertices, lambda d: arr(d, 4, 3), name="geometry.aabb.create_from_vertices")
F(AB.AABB.is_overlap, whole=aabbs, name="geometry.aabb.is_overlap")
F(BC.compute_barycentric_edge, whole=lambda d: tri(d)[1:] + [v3(d)])
F(BC.compute_barycentric_triangle, whole=lambda d: tri(d) + [v3(d)])
F(BC.compute_barycentric_tetrahedron, whole=lambda d: tet(d) + [v3(d)])
F(BC.compute_barycentric_derivatives_tetrahedron, whole=tet)
F(BC.is_inside_edge, s, s), F(BC.is_inside_triangle, s, s, s), F(BC.is_inside_tetrahedron, s, s, s, s)
for f in (TE.compute_signed_volume, TE.is_left_orientation, TE.compute_circumscribed_sphere, TE.compute_inscribed_sphere):
    F(f, whole=tet)
F(TE.generate_sample_points, lambda d: d.int(2, 6)), F(TE.generate_interior_sample_points, lambda d: d.int(5, 7))
F(KD.overlap, whole=kdops), F(KD.union, whole=kdops), F(KD.get_direction_table, lambda d: d.pick([3, 4]))
F(KD.make, lambda d: d.pick([3, 4]), lambda d: arr(d, 5, 3), lambda d: abs(s(d)))
F(BV.make_bvh, whole=lambda d: box(d) + (d.pick([3, 4]), d.int(2, 9), abs(s(d)))), F(BV.traversal, bvh, bvh)
F(lambda g, p: GR.get_value(g, p), grid, lambda d: arr(d, 3, lo=-0.9, hi=0.9), name="geometry.grid3.get_value")
F(lambda g, p: GR.get_gradient(g, p), grid, lambda d: arr(d, 3, lo=-0.9, hi=0.9), name="geometry.grid3.get_gradient")
F(GR.is_inside, grid, v3, lambda d: p(d, 0.1, 0.9)), F(GR.get_nodes_array, grid)
F(GR.Grid.get_node_coord, grid, lambda d: d.int(0, 3), lambda d: d.int(0, 3), lambda d: d.int(0, 3), name="geometry.grid3.get_node_coord")
F(GR.Grid.get_node_value, grid, lambda d: d.int(0, 3), lambda d: d.int(0, 3), lambda d: d.int(0, 3), name="geometry.grid3.get_node_value")
F(GR.Grid.get_enclosing_cell_idx, grid, v3, name="geometry.grid3.get_enclosing_cell_idx")
F(GR.create_signed_distance, whole=lambda d: box(d) + (4, 5, 4))
F(MC.create_from_sdf, ball)
F(SM.Mesh, whole=box, name="geometry.surface_mesh.Mesh"), F(SM.aabb, lambda d: SM.Mesh(*box(d)))
F(SM.profile_sweep, profile, lambda d: d.int(3, 6)), F(SM.create_cylinder, p, p, lambda d: d.int(3, 6))
F(SM.create_cone, p, p, lambda d: d.int(3, 6)), F(SM.create_conical, p, p, p, lambda d: d.int(3, 6))
F(SM.create_sphere, p, lambda d: d.int(3, 6), lambda d: d.int(3, 6)), F(SM.create_box, p, p, p)
F(SM.create_ellipsoid, p, p, p, lambda d: d.int(3, 6), lambda d: d.int(3, 6))
F(SM.create_capsule, p, p, lambda d: d.int(3, 6), lambda d: 2 * d.int(2, 3))
F(SM.create_torus, lambda d: p(d, 2, 4), lambda d: p(d, 0.5, 1), lambda d: d.int(3, 6), lambda d: d.int(3, 6))
F(SM.create_cuboid, whole=lambda d: list(arr(d, 8, 3, -0.1, 0.1) + np.array([[i & 1, i >> 1 & 1, i >> 2] for i in range(8)])))
F(SM.create_convex_hull, hull_points)
F(VM.create_tetrahedron_array_from_cube_mesh, lambda d: d.int(2, 4), lambda d: d.int(2, 3), lambda d: 3)
F(VM.create_beam, lambda d: d.int(2, 4), lambda d: d.int(2, 3), lambda d: 2, p, p, p), F(VM.from_grid3d, grid)
F(VM.to_triangles, lambda d: beam(d)[1]), F(VM.to_tetrahedrons, whole=beam), F(VM.create_loop_subdivision, whole=beam)
F(VM.compute_volumes, whole=beam), F(VM.compute_neighbors, lambda d: beam(d)[1])
F(VM.compute_surface, whole=lambda d: (lambda T: (T, VM.compute_neighbors(T)))(beam(d)[1]))
Fs = lambda d: np.array([F33(d) for _ in range(2)])
F(ME.right_cauchy_strain_tensor, F33), F(ME.green_strain_tensor, F33), F(ME.cauchy_stress_tensor, Fs, lambda d: np.array([m33(d), m33(d)]))
F(ME.create_material_parameters), F(ME.first_lame, p, lambda d: s(d, 0, 0.4)), F(ME.second_lame, p, lambda d: s(d, 0, 0.4))
for c in (ME.SVK, ME.COR, ME.SNH):
    F(c.pk1_stress, whole=lambda d: (F33(d),) + lame(d), name="mechanics.%s.pk1_stress" % c.__name__)
    F(c.energy_density, whole=lambda d: (F33(d),) + lame(d), name="mechanics.%s.energy_density" % c.__name__)
F(PR.prox_sphere, s, s, s, p, s), F(PR.prox_origin, s, s, s, p, s)
F(MA.compute_mass_properties, whole=lambda d: box(d) + (p(d),)), F(MA.update_inertia_tensor, rot, lambda d: arr(d, 3, lo=1))
N = SO.Native
F(SO.ElementArrayUtil.prod_mat_vec, whole=lambda d: (lambda e: e[1:] + (arr(d, e[0], 3),))(elems(d)), name="solver.prod_mat_vec")
F(SO.ElementArrayUtil.assembly_coo, whole=lambda d: elems(d)[1:], name="solver.assembly_coo")
F(lambda n, T, A: SO.ElementArrayUtil.assembly_csr(n, T, A).toarray(), whole=elems, name="solver.assembly_csr")
F(N.compute_outward_face_vectors, whole=beam, name="solver.compute_outward_face_vectors")
F(N.compute_D, whole=deformed, name="solver.compute_D"), F(N.compute_inverse_D0, whole=beam, name="solver.compute_inverse_D0")
F(N.compute_deformation_gradient, whole=lambda d: (lambda V, T: (V * 1.1, T, N.compute_inverse_D0(V, T)))(*beam(d)),
  name="solver.compute_deformation_gradient")
F(N.compute_mass_element_array, whole=lambda d: (lambda a: (a[0], a[1], a[2], a[3]))(mass_arrays(d)), name="solver.compute_mass_element_array")
F(N.compute_damping_element_array, whole=lambda d: mass_arrays(d), name="solver.compute_damping_element_array")
F(N.compute_elastic_forces, whole=elastic,
  name="solver.compute_elastic_forces")
F(N.compute_elastic_energy, whole=lambda d: (lambda e, c: (np.ones(len(e[1])), e[3], e[4], e[5], c.energy_density))(elastic(d), d.pick([ME.SVK, ME.COR, ME.SNH])),
  name="solver.compute_elastic_energy")
F(N.compute_damping_forces, whole=lambda d: (lambda e: (e[1], e[2], arr(d, e[0], 3)))(elems(d)), name="solver.compute_damping_forces")
F(N.compute_gravity_forces, whole=lambda d: (lambda V, T: (len(V), T, arr(d, len(T), lo=0.1), p(d), v3(d)))(*beam(d)), name="solver.compute_gravity_forces")

NAMES = sorted(FUNCS)
VIEWS = {"math.coordsys.make": "a transform refers to the vector and quaternion it is made of",
         "math.expmap.reparameterization": "small rotation vectors are returned as they are"}


def draw_name(d, names):
    return names[d.int(0, 10 ** 6) * 7919 % len(names)]


def arguments(d, name):
    fn, gens, whole = FUNCS[name]
    return list(whole(d)) if whole else [g(d) for g in gens]


# ---------------------------------------------------------------- comparing values of any structure
def leaves(x, path="result", above=()):
    """(path, value) of every number, string or array in x"""
    if x is None or isinstance(x, (str, bool, int, float, complex, np.generic, np.ndarray)):
        yield path, x
        return
    if inspect.isfunction(x) or inspect.ismethod(x) or inspect.isclass(x) or callable(x) and not hasattr(x, "__dict__"):
        return
    if id(x) in above:
        return
    above = above + (id(x),)
    if isinstance(x, dict):
        for k in x:
            yield from leaves(x[k], path + "[%r]" % (k,), above)
    elif isinstance(x, (list, tuple, set, frozenset)):
        for i, v in enumerate(x):
            yield from leaves(v, path + "[%d]" % i, above)
    elif hasattr(x, "__dict__") and not callable(getattr(x, "py_func", None)):
        for k, v in sorted(vars(x).items()):
            yield from leaves(v, path + "." + k, above)


def equal(a, b, tol=None):
    la, lb = list(leaves(a)), list(leaves(b))
    if len(la) != len(lb):
        return "structure changed"
    for (pa, va), (pb, vb) in zip(la, lb):
        if pa != pb:
            return "structure changed at %s / %s" % (pa, pb)
        if isinstance(va, np.ndarray) or isinstance(vb, np.ndarray):
            va, vb = np.asarray(va), np.asarray(vb)
            if va.shape != vb.shape:
                return "%s: shape %s instead of %s" % (pa, va.shape, vb.shape)
            if va.dtype == object or vb.dtype == object:
                if not all(equal(i, j, tol) is None for i, j in zip(va.ravel(), vb.ravel())):
                    return "%s differs" % pa
                continue
            if tol is None:
                ok = np.array_equal(va, vb, equal_nan=va.dtype.kind in "fc")
            else:
                ok = np.allclose(va, vb, rtol=tol, atol=tol, equal_nan=True)
            if not ok:
                return "%s: %s instead of %s" % (pa, va, vb)
        elif va != vb and not (va != va and vb != vb):
            if tol is None or isinstance(va, (str, type(None))) or not abs(va - vb) <= tol * max(1.0, abs(vb)):
                return "%s: %r instead of %r" % (pa, va, vb)
    return None


def keep(x):
    return copy.deepcopy(x)


def check_same(got, want, what, tol=None, **kw):
    e = equal(got, want, tol)
    if e:
        fail("%s: %s %s" % (what, e, kw or ""))


def scribble(x):
    for _, v in leaves(x):
        if isinstance(v, np.ndarray) and v.dtype != object and v.flags.writeable and v.size:
            v[...] = v + 7 if v.dtype.kind in "iu" else v * 3 + 11.5 if v.dtype.kind in "fc" else ~v if v.dtype.kind == "b" else v


def arrays(x):
    return [v for _, v in leaves(x) if isinstance(v, np.ndarray)]


# ---------------------------------------------------------------- the checks
@sub(quick=3000)
def arguments_and_results(d):
    """a few calls of random helpers: no call changes its arguments, the result of an earlier call or of a repetition; overwriting a result changes neither arguments nor what the helper returns later; non-trivial if a helper occurs twice or three helpers are called"""
    n = d.int(1, 4)
    calls = []
    seed = d.int(0, 99)
    np.random.seed(seed), random.seed(seed)
    before = state_of_chance()
    for _ in range(n):
        name = draw_name(d, NAMES) if not calls or d.int(0, 2) else calls[-1][0]
        args = arguments(d, name)
        a0 = keep(args)
        res = FUNCS[name][0](*args)
        check_same(args, a0, name + " changed its arguments")
        calls.append((name, args, a0, res, keep(res)))
    names = [c[0] for c in calls]
    ensure(state_of_chance() == before, "a helper draws random numbers", names=names)
    np.random.seed(seed + 1), random.seed(seed + 1)
    d.label(names[0].split(".")[-2] if "." in names[0] else names[0])
    d.nontrivial(len(set(names)) < n or n >= 3)
    for name, args, a0, res, r0 in calls:
        check_same(res, r0, name + ": a result changed while other helpers were called", others=names)
        check_same(FUNCS[name][0](*keep(a0)), r0, name + " does not repeat its result", others=names)
    for name, args, a0, res, r0 in calls:
        if name not in VIEWS:
            scribble(res)
            check_same(args, a0, name + ": the result is part of an argument")
    for name, args, a0, res, r0 in calls:
        check_same(FUNCS[name][0](*keep(a0)), r0, name + ": overwriting a result changed later ones", others=names)


def state_of_chance():
    return random.getstate(), tuple(map(repr, np.random.get_state()[1:])), np.random.get_state()[1].tobytes()


def restored(a, how):
    """the same array stored in another way"""
    if how == "Fortran order":
        return np.asfortranarray(a)
    if how == "strided":
        b = np.full(tuple(2 * k for k in a.shape), 77, dtype=a.dtype)
        c = b[tuple(slice(0, None, 2) for _ in a.shape)]
    elif how == "reversed":
        b = np.full(a.shape, 77, dtype=a.dtype)
        c = b[::-1]
    elif how == "column of a table":
        b = np.full(a.shape + (3,), 77, dtype=a.dtype)
        c = b[..., 1]
    else:
        b = np.array(a)
        b.setflags(write=False)
        return b
    c[...] = a
    return c


@sub(quick=1500)
def storage_of_arguments(d):
    """helpers give the same result for arrays in Fortran order, strided or reversed views, columns of a table and read-only arrays; non-trivial if an argument was replaced by such an array"""
    name = draw_name(d, NAMES)
    args = arguments(d, name)
    a0 = keep(args)
    want = FUNCS[name][0](*keep(a0))
    how = d.pick(["Fortran order", "strided", "reversed", "column of a table", "read only"])
    d.label(how)
    n = 0
    for i, a in enumerate(args):
        if isinstance(a, np.ndarray) and a.dtype != object:
            args[i] = restored(a, how)
            n += 1
        elif isinstance(a, list) and all(isinstance(b, np.ndarray) for b in a):
            args[i] = [restored(b, how) for b in a]
            n += 1
    d.nontrivial(n > 0)
    got = FUNCS[name][0](*args)
    check_same(got, want, name + " with arguments stored as: " + how, tol=1e-9)
    check_same(args, a0, name + " changed its arguments", tol=0.0)


def alike(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype
    return hasattr(a, "__dict__") and not callable(a)


PAIRS = None


@sub(quick=1200)
def one_object_twice(d):
    """handing the same object to a helper twice is handing it two equal objects; non-trivial if the helper accepts them"""
    global PAIRS
    if PAIRS is None:
        PAIRS = [n for n in NAMES if len(FUNCS[n][1]) > 1 or FUNCS[n][2]]
    for _ in range(20):
        name = draw_name(d, PAIRS)
        args = arguments(d, name)
        cand = [(i, j) for j in range(len(args)) for i in range(j) if alike(args[i], args[j])]
        if cand:
            break
    else:
        return
    i, j = d.pick(cand)
    args[j] = keep(args[i])
    apart, together = keep(args), keep(args)
    together[j] = together[i]
    d.label(name.split(".")[-2])
    try:
        want = FUNCS[name][0](*apart)
    except (RuntimeError, ValueError, AssertionError, ZeroDivisionError, np.linalg.LinAlgError) as e:
        want = e
    try:
        got = FUNCS[name][0](*together)
    except (RuntimeError, ValueError, AssertionError, ZeroDivisionError, np.linalg.LinAlgError) as e:
        got = e
    if isinstance(want, Exception) or isinstance(got, Exception):
        ensure(type(want) is type(got), name + ": equal arguments are refused or accepted", want=want, got=got)
        return
    d.nontrivial()
    check_same(got, want, name + " of one object twice")
    check_same(together, apart, name + " changed its arguments", tol=0.0)


@sub(quick=500)
def in_place_helpers(d):
    """mesh transforms, refitting and evaluating a field change the object they are given and nothing else; non-trivial if the object changes"""
    k = d.int(0, 6)
    if k < 5:
        V, T = box(d)
        V0, T0 = V.copy(), T.copy()
        mesh, other = SM.Mesh(V, T), SM.Mesh(V, T)
        twin = keep(mesh)
        fn, args = [(SM.translate, [v3(d)]), (SM.rotate, [q4(d)]), (SM.scale, [p(d), p(d), p(d)]), (SM.scale_to_unit, []),
                    (SM.axis_sort, [u3(d)])][k]
        a0 = keep(args)
        fn(mesh, *args)
        d.nontrivial(equal(mesh, other) is not None)
        check_same(args, a0, fn.__name__ + " changed its arguments")
        fn(twin, *keep(a0))
        check_same(mesh, twin, fn.__name__ + " does not repeat its result")
        scribble(args)
        check_same(mesh, twin, fn.__name__ + ": the mesh refers to the argument")
        scribble(mesh)
        ensure(np.array_equal(V, V0) and np.array_equal(T, T0) and np.array_equal(other.V, V0) and np.array_equal(other.T, T0),
               fn.__name__ + ": a mesh made from the same arrays changed")
    elif k == 5:
        V, T = box(d)
        K, n, e = d.pick([3, 4]), d.int(2, 9), abs(s(d))
        tree, other = BV.make_bvh(V, T, K, n, e), BV.make_bvh(V, T, K, n, e)
        other0 = keep(other)
        W = V + v3(d)
        W0, T0 = W.copy(), T.copy()
        BV.refit_bvh(W, T, tree, K, e)
        d.nontrivial(equal(tree, other) is not None)
        t0 = keep(tree)
        check_same(other, other0, "refitting one tree changed another")
        ensure(np.array_equal(W, W0) and np.array_equal(T, T0), "refit_bvh changed its arguments")
        W += 5
        check_same(tree, t0, "a tree refers to the vertices it was fitted to")
    else:
        g, h = grid(d), grid(d)
        h0, a = keep(h), v3(d)
        seen = []

        def f(p):
            seen.append(p)
            out = float(a @ p)
            p[...] = 1e9                     # a careless function may overwrite the point it is given
            return out
        GR.eval_on_grid(g, f)
        d.nontrivial()
        X0 = GR.get_nodes_array(g)
        close(np.asarray(g.values).ravel(), X0 @ a, atol=1e-9, msg="values of the field")
        check_same(h, h0, "evaluating a field on one grid changed another")


if __name__ == "__main__":
    sys.exit(main("C45", []))
