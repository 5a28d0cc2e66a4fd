"""Tetrahedral meshes and soft-body worlds."""
import lazyphi  # noqa: F401  (before any HashGird)
from pbt import np, num, pos, unit, vec, quat, ref_matrix
from scipy.spatial import Delaunay
import rainbow.geometry.volume_mesh as VM
import rainbow.simulators.prox_soft_bodies.api as API
import rainbow.simulators.prox_soft_bodies.mechanics as ME

MODELS = ["SVK", "SNH", "COR"]


def vols(V, T):
    E = V[T[:, 1:]] - V[T[:, :1]]
    return np.linalg.det(E) / 6.0


def tetmesh(d, place=True):
    """positively oriented meshes without unused nodes: beams (jittered), Delaunay meshes of points, single elements"""
    kind = d.pick(["beam", "beam", "delaunay", "single"])
    d.label(kind)
    rng = np.random.RandomState(d.int(0, 9999))
    if kind == "single":
        V = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]], float) + 0.2 * rng.uniform(-1, 1, (4, 3))
        T = np.array([[0, 1, 2, 3]])
    elif kind == "beam":
        V, T = VM.create_beam(d.int(2, 3), d.int(2, 3), d.int(2, 3), 2.0, 1.0, 1.5)
        V = V + 0.05 * rng.uniform(-1, 1, V.shape)
    else:
        V = rng.uniform(-1, 1, (d.int(5, 12), 3))
        T = Delaunay(V).simplices.copy()
        T = T[np.abs(vols(V, T)) > 1e-2]
        if len(T) == 0:
            V, T = VM.create_beam(2, 2, 2, 1.0, 1.0, 1.0)
    T = np.array(T, dtype=np.int32)
    neg = vols(V, T) < 0
    T[neg] = T[neg][:, [1, 0, 2, 3]]
    T = T[vols(V, T) > 1e-3]
    if place:
        V = V * d(pos(0.2, 3)) @ ref_matrix(d(quat())).T + d(vec(3, -3, 3))
    perm = rng.permutation(len(V))                # shuffle nodes
    V2 = np.empty_like(V)
    V2[perm] = V
    T = perm[T].astype(np.int32)
    used = np.unique(T)
    new = np.full(len(V2), -1)
    new[used] = np.arange(len(used))
    return V2[used], new[T].astype(np.int32)


def engine(resolution=4):
    eng = API.create_engine()
    eng.params.resolution = resolution
    return eng


def material(eng, name, d, rho=None, c=None, E=None, nu=None, model=None):
    """a random material; returns its parameters"""
    E = E if E is not None else 10.0 ** d.int(2, 6) * d(pos(0.5, 5))
    nu = nu if nu is not None else d(num(0.0, 0.45))
    rho = rho if rho is not None else 10.0 ** d.int(0, 3) * d(pos(0.5, 5))
    c = c if c is not None else d.pick([0, 1]) * d(pos(0.1, 50))
    model = model or d.pick(MODELS)
    API.create_material(eng, name)
    API.set_elasticity(eng, name, E, nu)
    API.set_mass_density(eng, name, rho)
    API.set_viscosity(eng, name, c)
    API.set_constitutive_model(eng, name, getattr(ME, model))
    return dict(E=E, nu=nu, rho=rho, c=c, model=model)


def deform(d, V, amount=0.15, rigid=True):
    """an affine map near a rotation plus a little nodal noise"""
    rng = np.random.RandomState(d.int(0, 9999))
    A = np.eye(3) + amount * rng.uniform(-1, 1, (3, 3))
    if rigid:
        A = ref_matrix(d(quat())) @ A
    h = np.ptp(V, axis=0).max()
    return V @ A.T + d(vec(3, -2, 2)) + 0.01 * h * rng.uniform(-1, 1, V.shape)


TET = (np.array([[0, -.3, 0], [.4, .3, 0], [-.3, .3, .3], [-.3, .3, -.3]]), np.array([[0, 1, 2, 3]]))


def touching_scene(d, gap=None, kind=None, mu=None):
    """body b (box or tetrahedron) on top of the box a in a rotated world, approaching and sliding"""
    eng = API.create_engine()
    P = eng.params
    P.resolution, P.envelope, P.use_spatial_hashing = 12, 0.02, d.bool()
    P.absolute_tolerance, P.relative_tolerance, P.max_iterations, P.too_small_merit_change = 1e-9, 1e-12, 400, 0
    P.proximal_solver = d.pick(["gauss_seidel", "parallel_jacobi"])
    P.time_step = 1e-4
    R = ref_matrix(d(quat())) if d.bool() else np.eye(3)
    V, T = VM.create_beam(2, 2, 2, 2.0, 1.0, 1.6)
    kind = kind or d.pick(["box", "tet"])
    d.label(kind)
    V2, T2 = VM.create_beam(2, 2, 2, 1.0, 0.5, 0.8) if kind == "box" else TET
    T2 = np.array(T2)
    neg = vols(V2, T2) < 0
    T2[neg] = T2[neg][:, [1, 0, 2, 3]]
    mu = d(num(0, 1.5)) if mu is None else mu
    for nm, (v, t) in (("a", (V, T)), ("b", (V2, T2))):
        m = "m" + nm
        API.create_material(eng, m)
        API.set_elasticity(eng, m, 1e4, 0.3)
        API.set_mass_density(eng, m, 10.0 ** d.int(2, 3) * d(pos(0.5, 2)))
        API.create_soft_body(eng, nm, v @ R.T, t)
        API.set_material(eng, nm, m)
        API.set_gravity(eng, nm, R @ [0, -9.8, 0])
    API.create_surfaces_interaction(eng, "ma", "mb", mu)
    a, b = eng.bodies["a"], eng.bodies["b"]
    low = (b.x0 @ R)[:, 1].min()
    gap = d(num(-0.012, 0.0)) if gap is None else gap
    off = np.array([d(num(-0.15, 0.15)), 0.5 + gap - low, d(num(-0.12, 0.12))])
    API.set_spatial_coordinates(eng, "b", b.x0 + R @ off)
    return eng, a, b, R, mu
