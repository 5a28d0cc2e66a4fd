"""C28: post-stabilisation pushes penetrating rigid bodies apart, by as much as they penetrate, and changes nothing else."""
from pbt import *
import itertools
import meshgen as mg
import rainbow.simulators.prox_rigid_bodies.api as API
import rainbow.simulators.prox_rigid_bodies.types as RT
import rainbow.simulators.prox_rigid_bodies.state_storage as SS
import rainbow.simulators.prox_rigid_bodies.constraints as PB
import rainbow.simulators.prox_rigid_bodies.gauss_seidel_solver as GS


def inertia(d):
    a, b, c = d(pos(0.2, 1.5)), d(pos(0.2, 1.5)), d(pos(0.2, 1.5))
    return np.array([b + c, a + c, a + b])


def world(d, kmax=4):
    eng = API.create_engine()
    p = eng.params
    p.max_iterations, p.absolute_tolerance, p.relative_tolerance, p.too_small_merit_change = 3000, 1e-13, 0.0, 0.0
    p.min_gap_value = d(num(0.0, 0.01))
    n = d.int(2, 4)
    for i in range(n):
        API.create_rigid_body(eng, f"b{i}")
        b = eng.bodies[f"b{i}"]
        b.q, b.r, b.v, b.w = d(quat()), d(vec(3, -2, 2)), d(vec(3, -1, 1)), d(vec(3, -1, 1))
        b.mass = d(pos(0.3, 3))
        b.inertia = b.mass * (1 + inertia(d))
        if d.int(0, 4) == 0:
            b.is_fixed, b.v, b.w = True, np.zeros(3), np.zeros(3)
    bs = list(eng.bodies.values())
    for _ in range(d.int(1, kmax)):
        i = d.int(0, n - 1)
        j = (i + d.int(1, n - 1)) % n
        eng.contact_points.append(RT.ContactPoint(bs[i], bs[j], (bs[i].r + bs[j].r) / 2 + d(vec(3, -0.3, 0.3)), d(unit()), -d(pos(0.08, 1.5)) if d.int(0, 3) == 0 else d(num(-0.08, 0.02))))
    if d.int(0, 2) == 0:
        p.max_gap_value = d(pos(0.001, 0.1))
    return eng


@sub(quick=150)
def projection(d):
    """corrections of hand-made penetrating contacts: repulsive, frictionless, exact for penetrations above the threshold, complementary, mass-weighted centre kept; non-trivial if a contact pushes"""
    eng = world(d)
    s = SS.StateStorage()
    s.copy_from_engine(eng)
    c = PB.Contacts()
    c.initialize(0.01, s, eng)
    ps = PB.PostStabilization(c)
    ps.initialize(1.0, s, eng)
    g = np.zeros(4 * len(eng.contact_points))
    for k, cp in enumerate(eng.contact_points):
        if cp.g < -eng.params.min_gap_value:
            g[4 * k] = cp.g
    close(ps.g, g, atol=1e-14, msg="positional error of contacts (only penetrations above the threshold count)")
    GS.solve(eng, [ps], {}, False, "")
    x = np.array(ps.sol)
    dr = ps.finalize_solution()
    J, W = c.J.toarray(), s.W.toarray()
    close(dr, W @ J.T @ x, atol=1e-10, msg="displacement is not W J^T x")
    x4 = x.reshape(-1, 4)
    ensure((x4[:, 0] >= 0).all(), "attractive correction", x=x4[:, 0])
    close(x4[:, 1:], np.zeros_like(x4[:, 1:]), atol=0, msg="tangential correction")
    com = sum((b.mass * dr[6 * b.idx:6 * b.idx + 3] for b in eng.bodies.values()), np.zeros(3))
    if not any(b.is_fixed for b in eng.bodies.values()):
        close(com, np.zeros(3), atol=1e-10, msg="correction moves the common centre of mass")
    A = (J @ W @ J.T)[::4, ::4]
    b = g[::4]
    K = len(b)
    act = np.diag(A) > 0
    if not act.all():
        return d.nontrivial(False)                                 # both bodies are fixed
    if np.linalg.cond(A) > 30:
        return d.nontrivial(False)                                 # strongly coupled: slow convergence is possible
    y = None
    for I in itertools.product((0, 1), repeat=K):
        I = [i for i in range(K) if I[i]]
        z = np.zeros(K)
        if I:
            z[I] = np.linalg.solve(A[np.ix_(I, I)], -b[I])
        if (z >= -1e-13).all() and (A @ z + b >= -1e-12).all():
            y = z
            break
    ensure(y is not None, "no solution of a diagonally dominant problem")
    d.nontrivial((y > 1e-4).any())
    close(x4[:, 0], y, atol=1e-6, msg="correction differs from the complementarity solution")


def resting(d, depth, n=1, **params):
    eng = API.create_engine()
    p = eng.params
    p.resolution, p.envelope = 12, 0.02
    p.max_iterations, p.absolute_tolerance, p.relative_tolerance, p.too_small_merit_change = 400, 1e-12, 0.0, 0.0
    for k, v in params.items():
        setattr(p, k, v)
    dims = {"ground": (5.0, 1.0, 3.0)}
    rng = np.random.RandomState(d.int(0, 9999))
    for i in range(n):
        dims[f"b{i}"] = tuple(rng.uniform((0.6, 0.3, 0.6), (1.0, 0.5, 1.0)))
    for nm, dim in dims.items():
        V, F = mg.box(*dim)
        API.create_shape(eng, nm, API.create_mesh(V, F))
        API.create_rigid_body(eng, nm)
        API.connect_shape(eng, nm, nm)
        API.set_mass_properties(eng, nm, rng.uniform(0.5, 4))
        API.set_orientation(eng, nm, np.array([1.0, 0, 0, 0]), True)
    API.set_body_type(eng, "ground", "fixed")
    API.set_position(eng, "ground", np.zeros(3), True)
    for i in range(n):
        API.set_position(eng, f"b{i}", np.array([-1.2 + 2.4 * i + rng.uniform(-0.2, 0.2), 0.5 + dims[f"b{i}"][1] / 2 - depth[i], rng.uniform(-0.2, 0.2)]), True)
    return eng, dims


def support(eng, nm):
    b = eng.bodies[nm]
    return len({(cp.p[0] > b.r[0], cp.p[2] > b.r[2]) for cp in eng.contact_points if b in (cp.bodyA, cp.bodyB)}) == 4


@sub(quick=200)
def resting_blocks(d):
    """blocks sunk into the ground: lifted to the surface if on and deeper than the threshold, velocities untouched; non-trivial if a block is lifted"""
    n = d.int(1, 2)
    depth = [d.int(0, 30) * 5e-4 for _ in range(n)]
    on, mingap = d.int(0, 3) > 0, d.pick([2.5e-4, d.int(1, 8) * 1e-3 + 2.5e-4])
    eng, dims = resting(d, depth, n, use_post_stabilization=on, min_gap_value=mingap)
    v = [np.array([d(num(-0.5, 0.5)), 0, d(num(-0.5, 0.5))]) for _ in range(n)]
    if n == 2 and d.bool():                                        # the two blocks are hinged to each other, and move together
        API.create_hinge(eng, "h")
        API.set_hinge(eng, "h", "b0", "b1", (eng.bodies["b0"].r + eng.bodies["b1"].r) / 2, d(unit()), "world")
        v[1] = v[0]
        d.label("hinged")
    for i in range(n):
        API.set_velocity(eng, f"b{i}", v[i])
    for x in eng.surfaces_interactions.storage.values():
        x.mu = np.zeros(3)
    dt = 0.001
    x0 = [np.array(eng.bodies[f"b{i}"].r) for i in range(n)]
    q0 = [np.array(eng.bodies[f"b{i}"].q) for i in range(n)]
    API.simulate(eng, dt)
    lifted = False
    for i in range(n):
        if not support(eng, f"b{i}"):
            d.label("nosupport")
            return d.nontrivial(False)
        g = [cp.g for cp in eng.contact_points if eng.bodies[f"b{i}"] in (cp.bodyA, cp.bodyB)]
        if max(g) - min(g) > 1e-6 or abs(depth[i] - mingap) < 2e-4:
            d.label("uneven")
            return d.nontrivial(False)                             # the grid does not see a flat face
        b = eng.bodies[f"b{i}"]
        up = depth[i] if on and depth[i] > mingap else 0.0
        lifted |= up > 0
        close(b.r, x0[i] + dt * v[i] + np.array([0, up, 0]), atol=2e-5, rtol=0, msg="position of a sunk block after a step")
        close(ref_matrix(b.q), ref_matrix(q0[i]), atol=1e-4, msg="a flat block is turned by the correction")
        close(np.concatenate([b.v, b.w]), np.concatenate([v[i], np.zeros(3)]), atol=1e-6, msg="velocity after a step with post-stabilisation")
    g = eng.bodies["ground"]
    close(np.concatenate([g.r, g.v, g.w]), np.zeros(9), atol=0, msg="fixed ground moved")
    d.nontrivial(lifted)


@sub(quick=60)
def single_corner(d):
    """a needle whose tip is sunk into a slab (one contact): the tip is brought to the surface, velocities as without post-stabilisation; non-trivial if the tip is below the threshold"""
    rng = np.random.RandomState(d.int(0, 9999))
    V, F = mg.hull(np.array([[0, 0, 0], [.1, 1.5, .0], [-.1, 1.5, .1], [0, 1.5, -.1]]) + 0.02 * rng.normal(size=(4, 3)))
    depth, mingap = d.int(0, 40) * 5e-4 + 1e-4, d.int(1, 8) * 1e-3
    at, m, fixed = rng.uniform(-1, 1, 2), rng.uniform(0.5, 3), d.bool()
    v, w = d(vec(3, -0.5, 0.5)), d(vec(3, -0.5, 0.5))
    maxgap = d.pick([0.01, 0.001])
    out = []
    for on in (True, False):
        eng = API.create_engine()
        p = eng.params
        p.resolution, p.envelope, p.min_gap_value, p.max_gap_value = 14, 0.02, mingap, maxgap
        p.max_iterations, p.absolute_tolerance, p.relative_tolerance, p.too_small_merit_change = 400, 1e-12, 0.0, 0.0
        p.use_post_stabilization = on
        for n, (X, T) in dict(a=mg.box(3, 1, 3), b=(V.copy(), F.copy())).items():
            API.create_shape(eng, n, API.create_mesh(X, T))
            API.create_rigid_body(eng, n)
            API.connect_shape(eng, n, n)
            API.set_mass_properties(eng, n, m)
            API.set_orientation(eng, n, np.array([1.0, 0, 0, 0]), True)
        API.set_body_type(eng, "a", "fixed" if fixed else "free")
        API.set_position(eng, "a", np.zeros(3), True)
        API.set_position(eng, "b", np.array([at[0], 0.5 - depth, at[1]]) - V[np.argmin(V[:, 1])], True)
        API.set_velocity(eng, "b", v)
        API.set_spin(eng, "b", w)
        API.simulate(eng, 1e-5)
        out.append(eng)
    on, off = out
    cps = on.contact_points
    if len(cps) != 1 or cps[0].bodyA.name != "a" or abs(cps[0].g + depth) > 1e-6:
        d.label("other contacts")
        return d.nontrivial(False)
    for n in "ab":
        x, y = on.bodies[n], off.bodies[n]
        close(np.concatenate([x.v, x.w]), np.concatenate([y.v, y.w]), atol=0, msg="post-stabilisation changed a velocity of " + n)
        if depth <= mingap or (n == "a" and fixed):
            close(np.concatenate([x.r, x.q]), np.concatenate([y.r, y.q]), atol=0, msg="position changed although nothing is to be corrected: " + n)
    if abs(depth - mingap) < 1e-5:
        return d.nontrivial(False)
    d.nontrivial(depth > mingap)
    if depth > mingap:
        X = np.asarray(on.bodies["b"].shape.mesh.V)
        A, B, B0 = on.bodies["a"], on.bodies["b"], off.bodies["b"]
        i = int(np.argmin((X @ ref_matrix(B0.q).T)[:, 1]))
        tip = ref_matrix(B.q) @ X[i] + B.r
        rel = (ref_matrix(A.q).T @ (tip - A.r))
        R0 = ref_matrix(off.bodies["a"].q)
        c = ref_matrix(A.q) @ (R0.T @ (cps[0].p + depth * cps[0].n - off.bodies["a"].r)) + A.r
        n = ref_matrix(A.q) @ (R0.T @ cps[0].n)
        close((tip - c) @ n, 0.0, atol=5 * depth ** 2 + 2e-5, rtol=0, msg="height of the tip above the surface after the correction")


@sub(quick=60)
def velocities_unaffected(d):
    """free colliding bodies with and without post-stabilisation end the step with identical velocities, and the corrected positions do not penetrate deeper; non-trivial if positions differ"""
    V, F = mg.hull(np.random.RandomState(d.int(0, 9999)).normal(size=(10, 3)))
    u, rot, gap = d(unit()), d(quat()), d(num(-0.2, -0.03))
    vel, dens = (d(vec(3, -1, 1)), d(vec(3, -1, 1))), (d(pos(0.5, 3)), d(pos(0.5, 3)))
    out = []
    for on in (True, False):
        eng = API.create_engine()
        eng.params.resolution, eng.params.envelope, eng.params.use_post_stabilization = 12, 0.02, on
        API.create_shape(eng, "s", API.create_mesh(V.copy(), F.copy()))
        X = np.asarray(eng.shapes["s"].mesh.V)
        R = ref_matrix(rot)
        A0, A1, A2 = (X[np.asarray(F)[:, k]] for k in range(3))
        nrm = np.cross(A1 - A0, A2 - A0)
        nrm /= np.linalg.norm(nrm, axis=1)[:, None]
        h, c = np.einsum("ij,ij->i", nrm, A0), nrm @ u
        hit = min(h[c > 1e-6] / c[c > 1e-6])                        # the ray from a's centre along u leaves a here
        Xb = X @ R.T
        at = (hit + gap) * u - Xb[np.argmin(Xb @ u)]                # b's lowest corner sits below a's surface
        for n, q, r, v, m in (("a", np.array([1.0, 0, 0, 0]), np.zeros(3), vel[0], dens[0]), ("b", rot, at, vel[1], dens[1])):
            API.create_rigid_body(eng, n)
            API.connect_shape(eng, n, "s")
            API.set_mass_properties(eng, n, m)
            API.set_orientation(eng, n, q)
            API.set_position(eng, n, r)
            API.set_velocity(eng, n, v)
        API.simulate(eng, 0.001)
        a, b = eng.bodies["a"], eng.bodies["b"]
        out.append((np.concatenate([a.v, a.w, b.v, b.w]), np.concatenate([a.r, b.r]), list(eng.contact_points), eng, (a.mass, b.mass)))
    (u1, r1, cps, eng, m), (u0, r0, _, _, _) = out
    d.nontrivial(np.abs(r1 - r0).max() > 1e-4)
    other = out[1][3].bodies
    dr = (r1 - r0)[:3], (r1 - r0)[3:]
    dq = [ref_qmul(eng.bodies[n].q, other[n].q * [1, -1, -1, -1]) for n in "ab"]
    dw = [2 * q[1:] / q[0] for q in dq]
    r_at = r0[:3], r0[3:]
    close(u1, u0, atol=0, msg="post-stabilisation changed a velocity")
    close(m[0] * (r1 - r0)[:3] + m[1] * (r1 - r0)[3:], np.zeros(3), atol=1e-9, msg="post-stabilisation moved the common centre of mass")
    deep = [cp for cp in cps if cp.g < -eng.params.min_gap_value]
    if not deep:
        close(r1, r0, atol=0, msg="position corrected although nothing penetrates")
    else:
        sep = []
        for cp in deep:
            side = lambda k: 1 if cp.bodyB.name == "ab"[k] else -1
            sep.append(sum(side(k) * cp.n @ (dr[k] + np.cross(dw[k], cp.p - r_at[k])) for k in (0, 1)))
        ensure(max(sep) > 0, "no penetrating contact is pushed apart", displacements=sep)


if __name__ == "__main__":
    sys.exit(main("C28", ["Exact corrections are decided for weakly coupled contacts and flat faces that the distance grid represents exactly."]))
