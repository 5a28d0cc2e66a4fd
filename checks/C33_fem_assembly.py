"""C33: finite element forces, masses and energies of soft bodies are those of the continuum they discretise."""
from pbt import *
import softgen as sg
from softgen import API, ME, vols
import rainbow.simulators.prox_soft_bodies.solver as SO

NA = SO.Native
EA = SO.ElementArrayUtil


def world(d, nmax=2):
    """an engine with 1-2 deformed bodies of random materials"""
    eng = sg.engine()
    out = []
    for i in range(d.int(1, nmax)):
        V, T = sg.tetmesh(d)
        size = d.pick([1.0, 1.0, 1.0, 2e-3])                          # metres or millimetres
        V = V * size
        API.create_soft_body(eng, f"b{i}", V, T)
        m = sg.material(eng, f"m{i}", d)
        API.set_material(eng, f"b{i}", f"m{i}")
        b = eng.bodies[f"b{i}"]
        x = sg.deform(d, b.x0)
        if vols(x, b.T).min() <= 1e-6 * size ** 3:
            x = b.x0 + 0.001
        API.set_spatial_coordinates(eng, f"b{i}", x)
        rng = np.random.RandomState(d.int(0, 9999))
        b.u = rng.uniform(-1, 1, x.shape)
        out.append((b, m))
    return eng, out


def energy(b, m, x):
    """total elastic energy, deformation gradients from scratch"""
    lam = m["E"] * m["nu"] / ((1 + m["nu"]) * (1 - 2 * m["nu"]))
    mu = m["E"] / (2 * (1 + m["nu"]))
    M = getattr(ME, m["model"])
    tot = 0.0
    for t in b.T:
        D0, D = (b.x0[t[1:]] - b.x0[t[0]]).T, (x[t[1:]] - x[t[0]]).T
        tot += M.energy_density(D @ np.linalg.inv(D0), lam, mu) * np.linalg.det(D0) / 6
    return tot


@sub(quick=60)
def elastic_forces(d):
    """elastic forces against the numerical gradient of the total energy along random directions, no net force or torque; non-trivial if deformed"""
    eng, bs = world(d)
    x = SO.get_position_vector(eng)
    stats = {}
    f = SO.compute_elastic_forces(x, eng, stats, d.bool())
    ensure(f.shape == x.shape, "shape of forces")
    total = 0.0
    for b, m in bs:
        fb = f[b.offset:b.offset + len(b.x)]
        xb = np.array(b.x)
        h0 = np.ptp(b.x0, axis=0).max()
        sc = m["E"] / (1 - 2 * m["nu"]) * h0 ** 2
        d.nontrivial(np.abs(fb).max() > 1e-6 * sc)
        e = energy(b, m, xb)
        total += e
        rng = np.random.RandomState(d.int(0, 9999))
        for _ in range(2):
            dx = rng.uniform(-1, 1, xb.shape)
            hmin = (6 * vols(b.x0, b.T).min()) ** (1 / 3)
            eps = 1e-3 * hmin
            g = (8 * (energy(b, m, xb + eps * dx) - energy(b, m, xb - eps * dx))
                 - (energy(b, m, xb + 2 * eps * dx) - energy(b, m, xb - 2 * eps * dx))) / (12 * eps)
            close((fb * dx).sum(), -g, atol=1e-5 * max(np.abs(fb).sum(), 1e-6 * sc, 1e-9 * e / eps), rtol=1e-4,
                  msg=m["model"] + ": elastic force is not the negative energy gradient")
        close(fb.sum(axis=0), np.zeros(3), atol=1e-9 * (np.abs(fb).sum() + sc), msg="internal forces have a net force")
        c = xb - xb.mean(axis=0)
        close(np.cross(c, fb).sum(axis=0), np.zeros(3), atol=1e-8 * (np.abs(fb).sum() + sc) * np.abs(c).max(),
              msg="internal forces have a net torque")
    close(SO.compute_elastic_energy(eng, stats, False), total, rtol=1e-9, atol=1e-12 * max(1.0, abs(total)),
          msg="elastic energy")


@sub(quick=60)
def rest_and_rigid_motion(d):
    """moving an undeformed body rigidly creates neither force nor energy beyond that of the rest state; non-trivial if rotated"""
    eng, bs = world(d, 1)
    b, m = bs[0]
    q = d(quat())
    d.nontrivial(abs(abs(q[0]) - 1) > 1e-3)
    b.x = b.x0 @ ref_matrix(q).T + d(vec(3, -5, 5))
    h = np.ptp(b.x0, axis=0).max()
    sc = m["E"] / (1 - 2 * m["nu"])
    hmin = (6 * vols(b.x0, b.T).min()) ** (1 / 3)
    f = SO.compute_elastic_forces(SO.get_position_vector(eng), eng, {}, False)
    close(f, np.zeros_like(f), atol=1e-9 * sc * h ** 2 * (1 + 10 / hmin), msg=m["model"] + ": force in a rigidly moved body")
    close(SO.compute_elastic_energy(eng, {}, False), energy(b, m, b.x0), atol=1e-9 * sc * h ** 3 * (1 + 10 / hmin), msg="energy")


@sub(quick=120)
def deformation_gradients(d):
    """an affine map has its matrix as the gradient in every element, flattened elements are refused; non-trivial with several elements"""
    V, T = sg.tetmesh(d)
    d.nontrivial(len(T) > 1)
    inv = NA.compute_inverse_D0(V, T)
    A = ref_matrix(d(quat())) @ np.diag([d(pos(0.3, 3)) for _ in range(3)]) @ ref_matrix(d(quat()))
    x = V @ A.T + d(vec(3, -5, 5))
    hmin = (6 * vols(V, T).min()) ** (1 / 3)
    h = np.abs(V).max() + 10
    close(NA.compute_deformation_gradient(x, T, inv), np.broadcast_to(A, (len(T), 3, 3)),
          atol=1e-10 * (h / hmin) ** 3, msg="deformation gradient of an affine map")
    bad = np.array(T)
    e = d.int(0, len(T) - 1)
    bad[e] = bad[e][[1, 0, 2, 3]]
    for fn in (NA.compute_inverse_D0, NA.compute_D):
        try:
            fn(V, bad)
        except RuntimeError:
            continue
        fail("an inverted element is accepted")


@sub(quick=80)
def masses(d):
    """mass matrix: symmetric, positive, sums to the mass, integrates linear fields, per body blocks, and its inverse; non-trivial with 2+ elements"""
    eng, bs = world(d, d.pick([2, 2, 6]))
    lumped = d.bool()
    for b, m in bs:
        b.is_lumped = lumped
        API.set_material(eng, b.name, b.material_description.name)
    d.label("lumped" if lumped else "consistent")
    d.nontrivial(sum(len(b.T) for b, _ in bs) > 1)
    M = SO.compute_mass_matrix(eng, {}, False).toarray()
    ensure(M.shape == (3 * eng.number_of_nodes,) * 2, "shape")
    W = SO.compute_inverse_mass_matrix(eng, {}, d.bool())
    W = W.toarray() if hasattr(W, "toarray") else np.asarray(W)
    sc = np.abs(M).max()
    close(M, M.T, atol=1e-13 * sc, msg="mass matrix is not symmetric")
    close(W @ M, np.eye(len(M)), atol=1e-7, msg="inverse mass matrix")
    ref = np.zeros_like(M)
    for b, m in bs:
        o = 3 * b.offset
        for t, v in zip(b.T, vols(b.x0, b.T)):
            for i in range(4):
                for j in range(4):
                    w = (0.25 if i == j else 0) if lumped else (0.1 if i == j else 0.05)
                    r, c = o + 3 * t[i], o + 3 * t[j]
                    ref[r:r + 3, c:c + 3] += m["rho"] * v * w * np.eye(3)
    close(M, ref, atol=1e-11 * sc, msg="mass matrix")
    u = SO.get_velocity_vector(eng)
    for b, m in bs:
        close(u[b.offset:b.offset + len(b.x)], b.u, atol=0, msg="velocity vector")


@sub(quick=150)
def assembly(d):
    """assembled sparse matrix, matrix-vector product and dense reference agree; non-trivial with shared nodes"""
    V, T = sg.tetmesh(d)
    d.nontrivial(len(T) > 1)
    rng = np.random.RandomState(d.int(0, 9999))
    A = rng.uniform(-1, 1, (len(T), 4, 4, 3, 3))
    A0 = A.copy()
    N = len(V) + d.int(0, 2)
    ref = np.zeros((3 * N, 3 * N))
    for e, t in enumerate(T):
        for i in range(4):
            for j in range(4):
                ref[3 * t[i]:3 * t[i] + 3, 3 * t[j]:3 * t[j] + 3] += A[e, i, j]
    S = EA.assembly_csr(N, T, A)
    close(S.toarray(), ref, atol=1e-12, msg="assembled matrix")
    r, c, v = EA.assembly_coo(T, A)
    ensure(len(set(zip(r.tolist(), c.tolist()))) == len(r), "an entry occurs twice")
    x = rng.uniform(-1, 1, (N, 3))
    close(EA.prod_mat_vec(T, A, x), (ref @ x.ravel()).reshape(-1, 3), atol=1e-11, msg="product with N-by-3 vector")
    close(EA.prod_mat_vec(T, A, x.ravel()), ref @ x.ravel(), atol=1e-11, msg="product with 3N vector")
    close(A, A0, atol=0, msg="element array overwritten")


@sub(quick=6)
def large_body(d):
    """a body of 180 to 730 nodes (in any order): element arrays act alike assembled or not, the mass matrix integrates constant and linear fields, elastic forces are those of the elements one by one; non-trivial with more than 256 nodes"""
    V, T = sg.VM.create_beam(9 - d.int(0, 3), 9 - d.int(0, 3), 9 - d.int(0, 4), 2.0, 1.0, 1.5)
    rng = np.random.RandomState(d.int(0, 9999))
    V, T = np.array(V), np.array(T)
    perm = rng.permutation(len(V))
    W = np.empty_like(V)
    W[perm], T = V, perm[T].astype(np.int32)
    A = rng.uniform(-1, 1, (len(T), 4, 4, 3, 3))
    x = rng.uniform(-1, 1, (len(V), 3))
    want = np.zeros_like(x)
    np.add.at(want, T, np.einsum("eijab,ejb->eia", A, x[T]))
    S = EA.assembly_csr(len(V), T, A)
    ensure(S.shape == (3 * len(V),) * 2, "shape of the assembled matrix")
    close((S @ x.ravel()).reshape(-1, 3), want, atol=1e-10, msg="product with the assembled matrix")
    close(EA.prod_mat_vec(T, A, x), want, atol=1e-10, msg="product with the element array")
    eng = sg.engine(3)
    API.create_soft_body(eng, "b", W, T)
    m = sg.material(eng, "m", d)
    API.set_material(eng, "b", "m")
    b = eng.bodies["b"]
    v = vols(b.x0, b.T)
    close(float(v.sum()), 3.0, rtol=1e-9, msg="volume of the body")
    M = SO.compute_mass_matrix(eng, {}, False)
    f = np.column_stack([np.ones(len(b.x0)), b.x0])                # 1, x, y, z at the nodes
    cen = b.x0[b.T].mean(axis=1)
    want = m["rho"] * (v[:, None] * np.column_stack([np.ones(len(v)), cen])).sum(axis=0)
    for c in range(3):
        e = np.zeros((len(b.x0), 3))
        e[:, c] = 1.0
        close(f.T @ (M @ e.ravel()).reshape(-1, 3)[:, c], want, rtol=1e-9, atol=1e-9 * m["rho"], msg="mass and first moments of the body")
    h = 0.02 * (6 * v.min()) ** (1 / 3)
    API.set_spatial_coordinates(eng, "b", b.x0 * np.array([1.1, 0.95, 1.0]) + h * rng.uniform(-1, 1, b.x0.shape))
    got = SO.compute_elastic_forces(SO.get_position_vector(eng), eng, {}, False)
    want, part = np.zeros_like(got), rng.permutation(len(b.T))[:20]
    ids = np.unique(b.T[part])
    keep = np.nonzero(np.isin(b.T, ids).any(axis=1))[0]           # all elements of the nodes looked at
    P = NA.compute_deformation_gradient(b.x, b.T, NA.compute_inverse_D0(b.x0, b.T))
    lam, mu = m["E"] * m["nu"] / ((1 + m["nu"]) * (1 - 2 * m["nu"])), m["E"] / (2 * (1 + m["nu"]))
    for e in keep:
        F, t = P[e], b.T[e]
        D0 = (b.x0[t[1:]] - b.x0[t[0]]).T
        H = -v[e] * getattr(ME, m["model"]).pk1_stress(F, lam, mu) @ np.linalg.inv(D0).T
        want[t[1:]] += H.T
        want[t[0]] -= H.sum(axis=1)
    sc = np.abs(want[ids]).max()
    close(got[ids], want[ids], atol=1e-8 * sc, msg="elastic forces of the nodes of a large body")
    d.nontrivial(len(V) > 256)


@sub(quick=120)
def tractions(d):
    """surface loads: faces inside the region are loaded with area times load, a third on each node; non-trivial if some but not all faces are loaded"""
    eng, bs = world(d, 1)
    b, m = bs[0]
    n, o = d(unit()), b.x0.mean(axis=0) + 0.3 * np.ptp(b.x0) * (d(num(-1, 1))) * np.array([1.0, 0.5, 0.2])
    load = d(vec(3, -100, 100)) + np.array([1.0, 0, 0])
    l0 = load.copy()
    API.create_traction_conditions(eng, b.name, lambda p: (p - o) @ n, load)
    inside = [t for t in b.surface if all((b.x0[v] - o) @ n <= 0 for v in t)]
    d.nontrivial(0 < len(inside) < len(b.surface))
    ensure(sorted(tuple(map(int, (t.i, t.j, t.k))) for t in b.traction_conditions) == sorted(tuple(map(int, t)) for t in inside),
           "traction conditions on the wrong faces")
    second = d.int(0, 3) == 0
    load2 = d(vec(3, -100, 100)) if second else None
    if second:
        API.create_traction_conditions(eng, b.name, lambda p: -1.0, load2)
    load[:] = 0                                          # the conditions own their load
    x = SO.get_position_vector(eng)
    F = SO.compute_traction_forces(x, eng, {}, False)
    ref = np.zeros_like(F)
    for faces, l in [(inside, l0)] + ([(b.surface, load2)] if second else []):
        for t in faces:
            a = np.linalg.norm(np.cross(b.x[t[1]] - b.x[t[0]], b.x[t[2]] - b.x[t[0]])) / 2
            for v in t:
                ref[b.offset + v] += a * l / 3
    close(F, ref, atol=1e-9 * (1 + np.abs(ref).max()), msg="traction forces")


@sub(quick=120)
def gravity_and_damping(d):
    """gravity is the weight shared by the nodes of each element, damping is minus the damping matrix times velocity; non-trivial if damped"""
    eng, bs = world(d)
    d.nontrivial(any(m["c"] > 0 for _, m in bs))
    gs = {}
    for b, m in bs:
        gs[b.name] = d(vec(3, -10, 10))
        API.set_gravity(eng, b.name, gs[b.name])
    lumped = d.int(0, 2) > 0
    for b, m in bs:
        if not lumped:
            b.is_lumped = False
            API.set_viscosity(eng, b.material_description.name, m["c"])
    Fg = SO.compute_external_forces(eng, {}, False)
    u = SO.get_velocity_vector(eng)
    Fd = SO.compute_damping_forces(u, eng, {}, False)
    pot = 0.0
    for b, m in bs:
        v = vols(b.x0, b.T)
        nodal = np.zeros(len(b.x))
        np.add.at(nodal, b.T.ravel(), np.repeat(v / 4, 4))
        s = slice(b.offset, b.offset + len(b.x))
        close(Fg[s], m["rho"] * nodal[:, None] * gs[b.name], rtol=1e-9, atol=1e-9 * m["rho"] * v.sum() * 10, msg="gravity forces")
        damp = nodal[:, None] * b.u
        if not lumped:
            damp = np.zeros_like(b.u)
            for t, vol in zip(b.T, v):
                damp[t] += vol / 20 * (b.u[t].sum(axis=0) + b.u[t])
        close(Fd[s], -m["c"] * damp, rtol=1e-9, atol=1e-10 * m["c"] * v.sum(), msg="damping forces")
        ensure((Fd[s] * b.u).sum() <= 0, "damping adds energy")
        pot -= m["rho"] * (nodal[:, None] * b.x).sum(axis=0) @ gs[b.name]
    close(SO.compute_potential_energy(eng, {}, False), pot, rtol=1e-9,
          atol=1e-9 * sum(m["rho"] * vols(b.x0, b.T).sum() * np.abs(b.x).max() * 20 for b, m in bs), msg="potential energy")


@sub(quick=100)
def energies(d):
    """kinetic energy is exact for translations, never more than the nodal one; fixed bodies do not count; non-trivial with a fixed body"""
    eng, bs = world(d)
    uni = d.bool()
    ref = top = 0.0
    for b, m in bs:
        if d.bool():
            API.set_type(eng, b.name, "fixed")
            d.nontrivial(True)
        if uni:
            API.set_velocity(eng, b.name, d(vec(3, -3, 3)))
        if not b.is_fixed:
            v = vols(b.x0, b.T)
            nodal = np.zeros(len(b.x))
            np.add.at(nodal, b.T.ravel(), np.repeat(v / 4, 4))
            top += 0.5 * m["rho"] * (nodal * (b.u ** 2).sum(axis=1)).sum()
    k = SO.compute_kinetic_energy(eng, {}, False)
    ensure(0 <= k <= top * (1 + 1e-9) + 1e-12, "kinetic energy out of range", k=k, nodal=top)
    if uni:
        close(k, top, rtol=1e-9, atol=1e-12, msg="kinetic energy of a translation")
    if all(b.is_fixed for b, _ in bs):
        ensure(SO.compute_elastic_energy(eng, {}, False) == 0 and SO.compute_potential_energy(eng, {}, False) == 0,
               "energy of fixed bodies")


@sub(quick=100)
def dirichlet(d):
    """conditions are created for the nodes of the region at their material positions and constrain a linear system; non-trivial if some nodes are constrained"""
    eng, bs = world(d, 1)
    b, m = bs[0]
    n, o = d(unit()), b.x0.mean(axis=0)
    if d.bool():
        o = b.x0[d.int(0, len(b.x0) - 1)].copy()              # a node exactly on the surface of the region is inside
    API.create_dirichlet_conditions(eng, b.name, lambda p: (p - o) @ n)
    want = [i for i in range(len(b.x0)) if (b.x0[i] - o) @ n <= 0]
    ensure([c.idx for c in b.dirichlet_conditions] == want, "dirichlet conditions on the wrong nodes")
    for c in b.dirichlet_conditions:
        close(c.value, b.x0[c.idx], atol=0, msg="prescribed position")
    d.nontrivial(0 < len(want) < len(b.x0))
    rng = np.random.RandomState(d.int(0, 9999))
    A = EA.assembly_csr(len(b.x0), b.T, d.pick([b.M_array, rng.uniform(-1, 1, (len(b.T), 4, 4, 3, 3))])).tolil()
    ref = A.toarray()
    rhs = rng.uniform(-1, 1, 3 * len(b.x0))
    r0 = rhs.copy()
    if d.bool():
        A = A.tocsr()
    NA.apply_dirichlet_conditions(b.dirichlet_conditions, A, rhs)
    A = A.toarray()
    for i in range(len(b.x0)):
        s = slice(3 * i, 3 * i + 3)
        if i in want:
            row = np.zeros((3, A.shape[1]))
            row[:, s] = np.eye(3)
            close(A[s], row, atol=0, msg="row of a constrained node")
            close(rhs[s], b.x0[i], atol=0, msg="right-hand side of a constrained node")
        else:
            close(A[s], ref[s], atol=0, msg="row of a free node")
            close(rhs[s], r0[s], atol=0, msg="right-hand side of a free node")


if __name__ == "__main__":
    sys.exit(main("C33", ["meshes are positively oriented; elements are not inverted by the generated deformations"]))
