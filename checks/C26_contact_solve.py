"""C26: contact forces of rigid bodies: correct relative velocities, Coulomb friction, non-penetration, restitution, conserved momentum."""
from pbt import *
import meshgen as mg
from contactgen import bodies_with_contacts, coulomb_error
import rainbow.simulators.prox_rigid_bodies.api as API
import rainbow.simulators.prox_rigid_bodies.types as RT
import rainbow.simulators.prox_rigid_bodies.state_storage as SS
import rainbow.simulators.prox_rigid_bodies.constraints as PB
import rainbow.simulators.prox_rigid_bodies.gauss_seidel_solver as GS


def initialised(eng, dt):
    s = SS.StateStorage()
    s.copy_from_engine(eng)
    c = PB.Contacts()
    c.initialize(dt, s, eng)
    return s, c


def relative(cp, u):
    A, B = cp.bodyA, cp.bodyB
    ua, ub = u[6 * A.idx:6 * A.idx + 6], u[6 * B.idx:6 * B.idx + 6]
    vel = ub[:3] + np.cross(ub[3:], cp.p - B.r) - ua[:3] - np.cross(ua[3:], cp.p - A.r)
    return vel, ub[3:] - ua[3:]


@sub(quick=200)
def contact_jacobian(d):
    """J u against point velocities for random bodies, contacts and velocities; non-trivial with two contacts"""
    eng = bodies_with_contacts(d)
    s, c = initialised(eng, 0.01)
    d.nontrivial(len(eng.contact_points) > 1)
    n6 = 6 * len(eng.bodies)
    J = c.J.toarray()
    ensure(J.shape == (4 * len(eng.contact_points), n6), "shape of the Jacobian")
    for _ in range(2):
        u = np.random.RandomState(d.int(0, 9999)).uniform(-3, 3, n6)
        Ju = J @ u
        for k, cp in enumerate(eng.contact_points):
            vel, om = relative(cp, u)
            close(Ju[4 * k], cp.n @ vel, atol=1e-9, msg="normal relative velocity (B moving away from A is positive)")
            t = vel - (cp.n @ vel) * cp.n
            close(np.hypot(Ju[4 * k + 1], Ju[4 * k + 2]), np.linalg.norm(t), atol=1e-9, msg="tangential relative speed")
            close(Ju[4 * k + 3], cp.n @ om, atol=1e-9, msg="relative spin about the normal")
    for k, cp in enumerate(eng.contact_points):
        rows = J[4 * k:4 * k + 3, 6 * cp.bodyB.idx:6 * cp.bodyB.idx + 3]
        close(rows @ rows.T, np.eye(3), atol=1e-9, msg="contact frame is not orthonormal")
        close(np.linalg.det(rows), 1.0, atol=1e-9, msg="contact frame is not right-handed")


def check_terms(eng, dt):
    p = eng.params
    s, c = initialised(eng, dt)
    v = c.J.toarray() @ s.u
    ext = c.J.toarray() @ (dt * s.delta_u_ext)
    for k, cp in enumerate(eng.contact_points):
        key = tuple(sorted((cp.bodyA.material, cp.bodyB.material)))
        it = eng.surfaces_interactions.storage.get(key, eng.surfaces_interactions.storage["default", "default"])
        close(c.mu[k], it.mu[0], atol=0, msg="friction coefficient")
        e = it.epsilon if p.use_bounce else 0.0
        g = 0.0
        if p.use_pre_stabilization and cp.g < -p.min_gap_value and v[4 * k] <= 0:
            g = max(-p.max_gap_value, p.gap_reduction * cp.g) / dt
        vel, om = relative(cp, s.u)
        close(v[4 * k], cp.n @ vel, atol=1e-8, msg="normal relative velocity")
        close(v[4 * k + 3], cp.n @ om, atol=1e-8, msg="relative spin about the normal")
        if abs(v[4 * k]) < 1e-9 or abs(cp.g + p.min_gap_value) < 1e-12:
            continue
        close(c.b[4 * k], (1 + e) * v[4 * k] + ext[4 * k] + g, atol=1e-8, msg="normal right-hand side")
        close(c.b[4 * k + 1:4 * k + 4], v[4 * k + 1:4 * k + 4] + ext[4 * k + 1:4 * k + 4], atol=1e-8, msg="friction right-hand side")
    close(PB.Contacts.get_largest_penetration(eng), max([0.0] + [-cp.g for cp in eng.contact_points]), atol=0, msg="largest penetration")


@sub(quick=200)
def right_hand_side(d):
    """restitution, friction, stabilisation and external terms of the contact problem against their definitions, also after materials, interactions, parameters, velocities or contacts of the engine have changed; non-trivial if bounce or pre-stabilisation is on"""
    eng = bodies_with_contacts(d, 4, d.pick([4, 4, 30]))
    p = eng.params
    p.use_bounce, p.use_pre_stabilization = d.bool(), d.bool()
    p.gap_reduction, p.min_gap_value, p.max_gap_value = d(num(0.1, 1)), d(num(0.0, 0.01)), d(num(0.01, 0.04))
    dt = d(pos(0.001, 0.05))
    d.nontrivial(p.use_bounce or p.use_pre_stabilization)
    check_terms(eng, dt)
    bs = list(eng.bodies.values())
    for _ in range(d.int(0, 2)):
        what = ["material", "interaction", "parameters", "velocity", "contacts", "pose"][d.int(0, 10 ** 6) * 7919 % 6]
        d.label(what)
        b = d.pick(bs)
        if what == "material":
            API.set_body_material(eng, b.name, d.pick(["m2", "m1", "default"]))
        elif what == "interaction":
            it = d.pick(list(eng.surfaces_interactions.storage.values()))
            it.mu, it.epsilon = d(num(0, 1)) * np.ones(3), d(num(0, 1))
        elif what == "parameters":
            p.use_bounce, p.use_pre_stabilization, p.gap_reduction = not p.use_bounce, d.bool(), d(num(0.1, 1))
            dt = d(pos(0.001, 0.05))
        elif what == "velocity" and not b.is_fixed:
            API.set_velocity(eng, b.name, d(vec(3, -2, 2)))
            API.set_spin(eng, b.name, d(vec(3, -2, 2)))
        elif what == "contacts":
            for cp in eng.contact_points:
                cp.bodyA, cp.bodyB, cp.n, cp.g = cp.bodyB, cp.bodyA, d(unit()), d(num(-0.05, 0.05))
        elif what == "pose":
            b.r, b.q = d(vec(3, -3, 3)), d(quat())
        check_terms(eng, dt)


def solve(eng, s, c, it=3000):
    eng.params.max_iterations = it
    eng.params.absolute_tolerance = 1e-12
    eng.params.relative_tolerance = 0.0
    eng.params.too_small_merit_change = 0.0                           # else step lengths may shrink until the solver believes to be done
    GS.solve(eng, [c], {}, False, "")


@sub(quick=60)
def complementarity_and_coulomb(d):
    """solved contact problems: non-negative normal impulses, friction ball, non-penetrating post-velocities, complementarity, friction opposing sliding, conserved momentum; non-trivial if an impulse is positive"""
    eng = bodies_with_contacts(d, 3, 3)
    dt = 0.01
    s, c = initialised(eng, dt)
    solve(eng, s, c)
    K = len(eng.contact_points)
    x = np.array(c.sol)
    W, J = s.W.toarray(), c.J.toarray()
    du = c.finalize_solution()
    close(du, W @ (J.T @ x), atol=1e-9, msg="velocity change is not W J^T x")
    A = J @ W @ J.T
    w = A @ x + c.b
    sc = 1.0 + np.abs(x).max()
    d.nontrivial(np.any(x[::4] > 1e-6))
    for k in range(K):
        xn, xf = x[4 * k], x[4 * k + 1:4 * k + 4]
        ensure(xn >= 0, "attractive normal impulse", x=xn)
        ensure(np.linalg.norm(xf) <= c.mu[k] * xn + 1e-9 * sc, "friction impulse outside the Coulomb ball", friction=np.linalg.norm(xf), normal=xn, mu=c.mu[k])
    # momentum: W applies to free bodies only; impulses J^T x must be internal (equal and opposite incl. moments)
    f = J.T @ x
    F, L = np.zeros(3), np.zeros(3)
    for b in eng.bodies.values():
        f3, t3 = f[6 * b.idx:6 * b.idx + 3], f[6 * b.idx + 3:6 * b.idx + 6]
        F, L = F + f3, L + t3 + np.cross(b.r, f3)
        if b.is_fixed:
            close(du[6 * b.idx:6 * b.idx + 6], np.zeros(6), atol=0, msg="fixed body is accelerated")
    close(F, np.zeros(3), atol=1e-9 * sc, msg="contact impulses do not conserve linear momentum")
    close(L, np.zeros(3), atol=1e-8 * sc, msg="contact impulses do not conserve angular momentum")


@sub(quick=100)
def coulomb_central(d):
    """a contact on the line of centres of two bodies (uncoupled normal and friction): Coulomb's law in full; non-trivial if it slides with positive normal impulse"""
    eng = bodies_with_contacts(d, 2, 1, fixed=False)
    A, B = eng.contact_points[0].bodyA, eng.contact_points[0].bodyB
    n = d(unit())
    A.r, B.r = np.zeros(3), d(pos(0.5, 2)) * n
    for b in (A, B):
        b.inertia = np.full(3, d(pos(0.2, 2)))
    eng.contact_points = [RT.ContactPoint(A, B, d(num(0.2, 0.8)) * B.r, n, 0.0)]
    mu = d(num(0.05, 1.0))
    eng.surfaces_interactions.storage = {k: RT.SurfacesInteraction() for k in eng.surfaces_interactions.storage}
    for i in eng.surfaces_interactions.storage.values():
        i.mu, i.epsilon = np.array([mu, mu, mu]), 0.0
    s, c = initialised(eng, 0.01)
    solve(eng, s, c)
    x, w = np.array(c.sol), c.J.toarray() @ (c.WJT.toarray() @ c.sol) + c.b
    d.nontrivial(x[0] > 1e-3 and np.linalg.norm(w[1:3]) > 1e-2)
    err = coulomb_error(c.J.toarray() @ c.WJT.toarray(), c.b, c.mu, c.sol)
    ensure(err is None, "Coulomb's law is violated at a central contact: " + str(err))
    wn = c.J.toarray()[0] @ c.WJT.toarray()[:, 0]
    close(x[0], max(0.0, -c.b[0] / wn), atol=1e-6, rtol=1e-6, msg="normal impulse of a central contact")


@sub(quick=25)
def coulomb_majority(d):
    """nine independent, freely coupled problems with one or two contacts: Coulomb's law in full for at least five of them (the solver is iterative and may stop early); non-trivial if every problem has an impulse"""
    errs, n = [], 0
    for _ in range(9):
        eng = bodies_with_contacts(d, 3, 2)
        s, c = initialised(eng, 0.01)
        if not np.any(c.b[::4] < -0.05):                              # nothing collides: let the first contact do
            cp = eng.contact_points[0]
            for b in (cp.bodyA, cp.bodyB):
                if not b.is_fixed:
                    b.v = b.v + (5 if b is cp.bodyA else -5) * cp.n
            s, c = initialised(eng, 0.01)
        solve(eng, s, c, 1500)
        n += bool(np.any(np.array(c.sol)[::4] > 1e-6))
        errs.append(coulomb_error(c.J.toarray() @ c.WJT.toarray(), c.b, c.mu, c.sol))
    d.nontrivial(n >= 8)
    bad = [e for e in errs if e]
    ensure(len(bad) < 5, "Coulomb's law is violated in most problems", violated=len(bad), first=bad[0] if bad else "")


@sub(quick=60)
def frictionless_solution(d):
    """frictionless, weakly coupled contact problems converge to the solution of the linear complementarity problem (unique velocities); non-trivial if at least two impulses are positive"""
    eng = bodies_with_contacts(d, 3, 4)
    for i in eng.surfaces_interactions.storage.values():
        i.mu = np.zeros(3)
    s, c = initialised(eng, 0.01)
    solve(eng, s, c, 4000)
    K = len(eng.contact_points)
    W, J = s.W.toarray(), c.J.toarray()
    A = (J @ W @ J.T)[::4, ::4]
    b = np.array(c.b)[::4]
    x = np.array(c.sol)[::4]
    close(np.delete(np.array(c.sol).reshape(K, 4), 0, axis=1), np.zeros((K, 3)), atol=0, msg="friction impulse although mu=0")
    off = np.abs(A).sum(axis=1) - np.diag(A)
    if np.any(off > 0.7 * np.diag(A)):
        return d.nontrivial(False)                                 # slow convergence is possible: the answer is approximate
    # oracle: enumerate active sets
    import itertools
    sols = []
    for act in itertools.product((0, 1), repeat=K):
        I = [i for i in range(K) if act[i]]
        y = np.zeros(K)
        if I:
            M = A[np.ix_(I, I)]
            if np.linalg.matrix_rank(M, tol=1e-9) < len(I) or np.linalg.cond(M) > 1e4:
                return                                            # nearly parallel contacts: slow convergence is possible
            y[I] = np.linalg.solve(M, -b[I])
        if (y >= -1e-12).all() and (A @ y + b >= -1e-9).all():
            sols.append(y)
    if not sols:
        return
    y = sols[0]
    d.nontrivial((y > 1e-6).sum() >= 2)
    close(A @ x, A @ y, atol=1e-5 * (1 + np.abs(b).max()), msg="velocity change differs from the complementarity solution")


def slab_world(d, mu, eps=0.0, L=None, up=None, g=9.8, gap=0.0):
    eng = API.create_engine()
    p = eng.params
    p.resolution, p.envelope = 12, 0.02
    p.absolute_tolerance, p.relative_tolerance, p.max_iterations, p.too_small_merit_change = 1e-9, 0.0, 400, 0.0
    w, h, l = d(pos(0.8, 1.4)), d(pos(0.2, 0.4)), d(pos(0.8, 1.4))
    for n, dims in (("ground", (4.0, 1.0, 4.0)), ("block", (w, h, l))):
        V, F = mg.box(*dims)
        if n == "block":
            V, F = mg.refine(V, F)                                    # contacts are found per triangle: enough of them to stand on
        API.create_shape(eng, n, API.create_mesh(V, F))
        API.create_rigid_body(eng, n)
        API.connect_shape(eng, n, n)
        API.set_mass_properties(eng, n, d(pos(0.5, 5)) if d.int(0, 3) else 10 ** d(num(1, 8)))   # also very heavy blocks
        API.set_orientation(eng, n, np.array([1.0, 0, 0, 0]), True)
    API.set_position(eng, "ground", np.zeros(3), True)
    API.set_position(eng, "block", np.array([d(num(-0.3, 0.3)), 0.5 + h / 2 + gap, d(num(-0.3, 0.3))]), True)
    API.set_body_type(eng, "ground", "fixed")
    API.create_gravity_force(eng, "g", g, np.array([0, 1.0, 0]) if up is None else up)
    API.connect_force(eng, "block", "g")
    it = eng.surfaces_interactions.storage["default", "default"]
    it.mu, it.epsilon = np.array([mu, mu, mu]), eps
    return eng


def full_support(eng):
    """True if there is a contact in every quadrant of the block's bottom, so that it cannot tip over"""
    b = eng.bodies["block"]
    return len({(cp.p[0] > b.r[0], cp.p[2] > b.r[2]) for cp in eng.contact_points}) == 4


@sub(quick=120)
def inclined_block(d):
    """a flat block on a slope (tilted gravity) sticks if tan(angle)<mu and else slides with g(sin-mu cos); sliding blocks decelerate by mu g; non-trivial if it slides"""
    mu = d(num(0.1, 0.8))
    slide = d.bool()
    t = mu * d(num(1.5, 3.0)) if slide else mu * d(num(0.0, 0.8))
    th = np.arctan(t)
    phi = d(num(0, 6.28))
    along = np.array([np.cos(phi), 0, np.sin(phi)])
    up = np.array([0, np.cos(th), 0]) - np.sin(th) * along              # gravity has a component +along
    eng = slab_world(d, mu, up=up)
    d.nontrivial(slide)
    dt, b = 0.01, eng.bodies["block"]
    for n in range(1, d.int(1, 4) + 1):
        API.simulate(eng, dt)
        ensure(len(eng.contact_points) > 0, "block on the ground has no contacts")
        if not full_support(eng):
            return d.nontrivial(False)
        want = 9.8 * (np.sin(th) - mu * np.cos(th)) * n * dt if slide else 0.0
        close(b.v, want * along, atol=0.02 * 9.8 * n * dt, rtol=0, msg="velocity of a block on a slope after %d steps" % n)


@sub(quick=120)
def braking_block(d):
    """a sliding block on flat ground is decelerated by mu g until it stops and never reversed; non-trivial if it stops during the run"""
    mu = d(num(0.2, 0.8))
    eng = slab_world(d, mu)
    b = eng.bodies["block"]
    phi = d(num(0, 6.28))
    along = np.array([np.cos(phi), 0, np.sin(phi)])
    n, dt = d.int(2, 5), 0.01
    v0 = mu * 9.8 * dt * d(num(0.5, 8))
    API.set_velocity(eng, "block", v0 * along)
    for _ in range(n):
        API.simulate(eng, dt)
        if not full_support(eng):
            return d.nontrivial(False)
    want = max(0.0, v0 - mu * 9.8 * n * dt)
    d.nontrivial(want == 0.0)
    close(b.v, want * along, atol=0.02 * 9.8 * n * dt + 1e-6, rtol=0, msg="velocity of a braking block")


@sub(quick=120)
def impact(d):
    """a block hitting the ground flat leaves with -epsilon times its approach velocity if bounce is on, else stays; non-trivial with bounce"""
    eps = d(num(0.0, 1.0))
    eng = slab_world(d, d(num(0, 0.8)), eps, g=1e-6, gap=d(num(-0.005, 0.005)))
    bounce = d.bool()
    eng.params.use_bounce = bounce
    d.nontrivial(bounce and eps > 0.05)
    v0 = d(pos(0.1, 2))
    API.set_velocity(eng, "block", np.array([0, -v0, 0]))
    eng.params.time_step = 0.001
    API.simulate(eng, 0.001)
    if not full_support(eng):
        return d.nontrivial(False)
    b = eng.bodies["block"]
    close(b.v, [0, eps * v0 if bounce else 0.0, 0], atol=1e-3 * v0 + 1e-4, rtol=0, msg="velocity after the impact")
    g = eng.bodies["ground"]
    close(np.concatenate([g.r, g.v, g.w]), np.zeros(9), atol=0, msg="fixed ground moved")


@sub(quick=60)
def units(d):
    """measuring masses and times in other units (factors that are powers of two) gives the same motion in these units, with bounce, friction, tilted gravity and both stabilisations; non-trivial if a contact acts"""
    made = d.bool()
    if made:
        eng = bodies_with_contacts(d, 3, 4)
        eng.params.max_iterations = 40
        eng.params.time_step = 0.01
    else:
        eng = slab_world(d, d(num(0, 1)), d(num(0, 1)), up=np.array([d(num(-0.5, 0.5)), 1.0, d(num(-0.5, 0.5))]), gap=d(num(-0.01, 0.005)))
        API.set_velocity(eng, "block", d(vec(3, -1, 1)))
        API.set_spin(eng, "block", 0.3 * d(vec(3, -1, 1)))
        eng.params.max_iterations = 15
    p = eng.params
    p.absolute_tolerance, p.too_small_merit_change, p.relative_tolerance = 0.0, 0.0, d.pick([0.0, 1e-4])
    p.use_bounce, p.use_pre_stabilization, p.use_post_stabilization = d.bool(), d.bool(), d.bool()
    m, t = 2.0 ** d.pick([0, 10, 24, 40, -10, -24, -40]), 2.0 ** d.pick([0, 3, 10, -3, -10])
    import copy
    e2 = copy.deepcopy(eng)
    for b in e2.bodies.values():
        b.mass, b.inertia, b.v, b.w = m * b.mass, m * np.asarray(b.inertia), np.asarray(b.v) / t, np.asarray(b.w) / t
    for f in e2.forces.values():
        f.g = f.g / t ** 2
    e2.params.time_step = p.time_step * t
    for step in range(1 if made else 2):
        if made:
            s1, c1 = initialised(eng, 0.01)
            s2, c2 = initialised(e2, 0.01 * t)
            for c in (c1, c2):
                GS.solve(eng, [c], {}, False, "")
            u1, u2 = c1.finalize_solution(), c2.finalize_solution()
            x1 = x2 = np.zeros(1)
            acts = np.abs(c1.sol).max() > 0
        else:
            API.simulate(eng, p.time_step)
            API.simulate(e2, e2.params.time_step)
            u1, u2 = (np.concatenate([np.concatenate([b.v, b.w]) for b in e.bodies.values()]) for e in (eng, e2))
            x1, x2 = (np.concatenate([np.concatenate([b.r, b.q]) for b in e.bodies.values()]) for e in (eng, e2))
            acts = len(eng.contact_points) > 0
        close(t * u2, u1, atol=1e-9 * (1 + np.abs(u1).max()), msg="velocities in other units", mass=m, time=t)
        close(x2, x1, atol=1e-9, msg="placement in other units", mass=m, time=t)
        d.nontrivial(acts and (m, t) != (1.0, 1.0))


@sub(quick=60)
def profiling(d):
    """contacts alone or with hinges: profiling does not change the solution, a smaller iteration limit gives the same beginning, and residuals, iterations and exit code tell when and why the iteration stopped; non-trivial if it converged after several iterations"""
    eng = bodies_with_contacts(d, 3, 3)
    p, bs = eng.params, list(eng.bodies.values())
    if d.bool():
        API.create_hinge(eng, "h")
        API.set_hinge(eng, "h", bs[0].name, bs[1].name, (bs[0].r + bs[1].r) / 2, d(unit()), "world")
    p.max_iterations, p.absolute_tolerance, p.relative_tolerance = d.int(2, 80), 10.0 ** -d.int(1, 6), d.pick([0.0, 1e-4, 1e-2])
    p.too_small_merit_change = d.pick([0.0, 1e-6])
    prefix = d.pick(["", "p_"])

    def solve(on, limit=None):
        keep, p.max_iterations, stats = p.max_iterations, limit or p.max_iterations, {}
        s, c = initialised(eng, 0.01)
        some = [c]
        if eng.hinges:
            h = PB.Hinges()
            h.initialize(0.01, s, eng)
            some.append(h)
        GS.solve(eng, some, stats, on, prefix)
        p.max_iterations = keep
        return np.concatenate([np.array(k.sol) for k in some]), stats
    x, st0 = solve(False)
    y, st1 = solve(True)
    close(y, x, atol=1e-12 * (1 + np.abs(x).max()), msg="profiling changes the solution")
    ensure(not st0, "statistics without profiling", keys=list(st0))
    ensure(all(k.startswith(prefix) for k in st1) and len(st1) > 3, "names of statistics", keys=list(st1))
    res, code, it = st1[prefix + "residuals"], st1[prefix + "exitcode"], st1[prefix + "iterations"]
    n = it + 1 if code else p.max_iterations
    d.nontrivial(code != 0 and it > 3)
    ensure(len(res) == p.max_iterations and np.isfinite(res[:n]).all() and np.isinf(res[n:]).all(), "recorded residuals", iterations=it, residuals=res)
    ensure((np.diff(res[:n]) <= 1e-12).all(), "the residual of the best solution grows", residuals=res[:n])
    ensure(code in (0, 1, 2), "exit code", code=code)
    ensure((res[:n - 1] >= p.absolute_tolerance).all(), "went on after convergence")
    if code == 1:
        ensure(res[it] < p.absolute_tolerance, "absolute convergence without a small residual", residual=res[it])
    if code == 2:
        ensure(res[it] >= p.absolute_tolerance and it > 0 and abs(res[it] - res[it - 1]) <= p.relative_tolerance * res[it - 1], "relative convergence of a changing residual", residuals=res[:n])
    if code == 0:
        ensure(it == p.max_iterations and res[-1] >= p.absolute_tolerance, "no convergence, but stopped", iterations=it)
    m = d.int(1, n)
    z, st2 = solve(True, m)
    close(st2[prefix + "residuals"], res[:m], atol=1e-9, msg="residuals under a smaller iteration limit")
    ensure(m == n or st2[prefix + "exitcode"] == 0, "exit code under a smaller iteration limit")


if __name__ == "__main__":
    sys.exit(main("C26", ["Isotropic friction with mu <= 1, friction coefficient of the x direction is the one in use (as documented).",
                          "Full Coulomb conditions are decided for single contacts and frictionless systems, feasibility and momentum for all."]))
