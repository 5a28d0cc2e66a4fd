"""C27: hinges: anchors and axes stay together, five degrees of freedom are removed, the joint error shrinks with stabilisation."""
from pbt import *
import itertools
import meshgen as mg
from contactgen import coulomb_error
import rainbow.simulators.prox_rigid_bodies.types as RT
import rainbow.simulators.prox_rigid_bodies.api as API
import rainbow.simulators.prox_rigid_bodies.state_storage as SS
import rainbow.simulators.prox_rigid_bodies.constraints as PB
import rainbow.simulators.prox_rigid_bodies.gauss_seidel_solver as GS


def inertia(d):
    a, b, c = d(pos(0.2, 1.5)), d(pos(0.2, 1.5)), d(pos(0.2, 1.5))
    return np.array([b + c, a + c, a + b])


def hinged(d, nmax=5, kmax=5, fixed=True, g=True):
    """bodies without geometry joined by hinges (chain, tree or loop), at rest positions of the hinges"""
    eng = API.create_engine()
    n = d.int(2, nmax)
    API.create_gravity_force(eng, "g", 9.8, d(unit()))
    for i in range(n):
        nm = f"b{i}"
        API.create_rigid_body(eng, nm)
        b = eng.bodies[nm]
        b.q, b.r = d(quat()), d(vec(3, -2, 2))
        b.mass, b.inertia = d(pos(0.3, 3)), inertia(d)
        b.v, b.w = d(vec(3, -2, 2)), d(vec(3, -2, 2))
        if fixed and d.int(0, 3) == 0:
            b.is_fixed, b.v, b.w = True, np.zeros(3), np.zeros(3)
        if g and d.bool():
            API.connect_force(eng, nm, "g")
    for k in range(d.int(1, kmax)):
        i = d.int(0, n - 1)
        j = (i + d.int(1, n - 1)) % n
        o = (eng.bodies[f"b{i}"].r + eng.bodies[f"b{j}"].r) / 2 + d(vec(3, -0.5, 0.5))
        API.create_hinge(eng, f"h{k}")
        API.set_hinge(eng, f"h{k}", f"b{i}", f"b{j}", o, d(unit()), "world")
    return eng


def initialised(eng, dt):
    s = SS.StateStorage()
    s.copy_from_engine(eng)
    h = PB.Hinges()
    h.initialize(dt, s, eng)
    return s, h


def frames(h):
    Rp, Rc = ref_matrix(h.parent.q), ref_matrix(h.child.q)
    return Rp @ h.arm_p + h.parent.r, Rc @ h.arm_c + h.child.r, Rp @ h.axis_p, Rc @ h.axis_c


def defect(h):
    """anchor distance and angle between the axes"""
    p, c, a, b = frames(h)
    return np.linalg.norm(p - c), np.arctan2(np.linalg.norm(np.cross(a, b)), a @ b)


def rel_motion(h, u):
    p, c, a, b = frames(h)
    P, C = h.parent, h.child
    up, uc = u[6 * P.idx:6 * P.idx + 6], u[6 * C.idx:6 * C.idx + 6]
    dv = up[:3] + np.cross(up[3:], p - P.r) - uc[:3] - np.cross(uc[3:], c - C.r)
    dw = up[3:] - uc[3:]
    return dv, dw - (dw @ a) * a


@sub(quick=250)
def jacobian(d):
    """J u of random velocities against relative anchor velocity and off-axis spin, for intact and broken joints; non-trivial with two hinges"""
    eng = hinged(d)
    if d.bool():
        for b in eng.bodies.values():
            b.r, b.q = b.r + d(vec(3, -0.3, 0.3)), d(quat())
    d.nontrivial(len(eng.hinges) > 1)
    s, h = initialised(eng, 0.01)
    J = h.J.toarray()
    ensure(J.shape == (5 * len(eng.hinges), 6 * len(eng.bodies)), "shape of the Jacobian")
    for _ in range(2):
        u = np.random.RandomState(d.int(0, 9999)).uniform(-3, 3, 6 * len(eng.bodies))
        Ju = J @ u
        for hg in eng.hinges.values():
            dv, dw = rel_motion(hg, u)
            got = Ju[5 * hg.idx:5 * hg.idx + 5]
            close(np.linalg.norm(got[:3]), np.linalg.norm(dv), atol=1e-9, msg="relative velocity of the anchors")
            close(np.linalg.norm(got[3:]), np.linalg.norm(dw), atol=1e-9, msg="relative spin orthogonal to the axis")
    for hg in eng.hinges.values():
        cols = [c for b in eng.bodies.values() if b not in (hg.parent, hg.child) for c in range(6 * b.idx, 6 * b.idx + 6)]
        ensure(not J[5 * hg.idx:5 * hg.idx + 5][:, cols].any(), "hinge acts on a body it does not join")
        # the admissible motion: everything rigidly together plus a spin about the axis
        p, c, a, _ = frames(hg)
        u = np.zeros(6 * len(eng.bodies))
        om, v = d(vec(3, -2, 2)), d(vec(3, -2, 2))
        for b, w, at in ((hg.parent, om, p), (hg.child, om + d(num(-3, 3)) * a, c)):
            u[6 * b.idx:6 * b.idx + 3] = v - np.cross(w, at - b.r)
            u[6 * b.idx + 3:6 * b.idx + 6] = w
        close(J[5 * hg.idx:5 * hg.idx + 5] @ u, np.zeros(5), atol=1e-8, msg="hinge resists an admissible motion")


def nudge(b, dr, th):
    """move a body by dr and turn it by the world rotation vector th"""
    t = np.linalg.norm(th)
    q = np.concatenate([[np.cos(t / 2)], np.sin(t / 2) * th / t]) if t > 0 else np.array([1.0, 0, 0, 0])
    b.r, b.q = b.r + dr, ref_qmul(q, b.q)


@sub(quick=120)
def error_terms(d):
    """the correction velocity of up to five joints: the errors' size times the gap reduction over the step for any displacement, J times the displacement for small ones, none without stabilisation; non-trivial with stabilisation and two hinges"""
    eng = hinged(d)
    on, k, dt = d.int(0, 3) > 0, d.pick([0.1, 0.5, 1.0]), d.pick([0.01, 0.1])
    eng.params.use_pre_stabilization, eng.params.gap_reduction = on, k
    d.nontrivial(on and len(eng.hinges) > 1)

    def errors():
        s, h = initialised(eng, dt)
        J = h.J.toarray()
        return J, (np.array(h.b) - J @ (s.u + dt * s.delta_u_ext)) * dt / k
    _, g = errors()
    close(g, np.zeros(len(g)), atol=1e-9, msg="intact joints are corrected")
    rng = np.random.RandomState(d.int(0, 9999))
    small = d.bool()
    size = 1e-4 if small else d.pick([0.01, 0.3])
    u = np.zeros(6 * len(eng.bodies))
    for b in eng.bodies.values():
        if d.int(0, 3):
            m = size * rng.uniform(-1, 1, 6)
            u[6 * b.idx:6 * b.idx + 6] = m
            nudge(b, m[:3], m[3:])
    J, g = errors()                                        # the frame of the error is the one of the moved bodies
    if not on:
        close(g, np.zeros(len(g)), atol=1e-9, msg="joints are corrected although stabilisation is off")
        return
    for h in eng.hinges.values():
        gap, angle = defect(h)
        e = g[5 * h.idx:5 * h.idx + 5]
        close(np.linalg.norm(e[:3]), gap, atol=1e-9, msg="correction of the anchors", hinge=h.name)
        close(np.linalg.norm(e[3:]), np.sin(angle), atol=1e-8, msg="correction of the axes", hinge=h.name)
        if small:
            close(e, (J @ u)[5 * h.idx:5 * h.idx + 5], atol=1e-6, msg="correction of a small displacement is not J times it", hinge=h.name)


@sub(quick=120)
def solved_velocities(d):
    """solved joints of up to two hinges: post-velocities keep anchors and axes together, impulses are internal, fixed bodies unaffected; non-trivial if the joint was violated"""
    eng = hinged(d, 3, 2)
    dt = 0.01
    s, h = initialised(eng, dt)
    eng.params.max_iterations, eng.params.absolute_tolerance, eng.params.relative_tolerance = 4000, 1e-12, 0.0
    eng.params.too_small_merit_change = 0.0
    GS.solve(eng, [h], {}, False, "")
    x = np.array(h.sol)
    du = h.finalize_solution()
    J, W = h.J.toarray(), s.W.toarray()
    close(du, W @ (J.T @ x), atol=1e-9, rtol=1e-9, msg="velocity change is not W J^T x")
    f, sc = J.T @ x, 1 + np.abs(x).max()
    F, L = np.zeros(3), np.zeros(3)
    for b in eng.bodies.values():
        f3, t3 = f[6 * b.idx:6 * b.idx + 3], f[6 * b.idx + 3:6 * b.idx + 6]
        F, L = F + f3, L + t3 + np.cross(b.r, f3)
        if b.is_fixed:
            close(du[6 * b.idx:6 * b.idx + 6], np.zeros(6), atol=0, msg="fixed body is accelerated")
    close(F, np.zeros(3), atol=1e-8 * sc, msg="joint impulses do not conserve linear momentum")
    close(L, np.zeros(3), atol=1e-7 * sc, msg="joint impulses do not conserve angular momentum")
    A = J @ W @ J.T
    ev = np.linalg.eigvalsh(A)
    if ev[0] < 0.02 * ev[-1]:                                         # redundant or badly conditioned: slow convergence is possible
        return
    u = s.u + dt * s.delta_u_ext + du
    d.nontrivial(np.abs(h.b).max() > 0.1)
    for hg in eng.hinges.values():
        dv, dw = rel_motion(hg, u)
        close(dv, np.zeros(3), atol=1e-4 * sc, msg="anchors drift apart after the solve")
        close(dw, np.zeros(3), atol=1e-4 * sc, msg="axes turn apart after the solve")


@sub(quick=90)
def sweeps(d):
    """with the iterations limited to one or two, the impulses of up to four hinges are those of as many Gauss-Seidel sweeps (in some order): each joint sees the impulses of the joints treated before; non-trivial if that matters"""
    eng = hinged(d, 5, 4)
    s, h = initialised(eng, 0.01)
    p = eng.params
    p.nu_reduce = p.nu_increase = 1.0                                # keeps the step lengths
    p.absolute_tolerance = p.relative_tolerance = 0.0
    J, W, b, r = h.J.toarray(), s.W.toarray(), np.array(h.b), np.array(h.r)
    A, K = J @ W @ J.T, len(eng.hinges)

    def sweep(x, order, newest=True):
        x, old = x.copy(), x.copy()
        for k in order:
            i = np.arange(5 * k, 5 * k + 5)
            x[i] -= r[i] * (A[i] @ (x if newest else old) + b[i])
        return x

    n = d.int(1, 2)
    p.max_iterations = n
    GS.solve(eng, [h], {}, False, "")
    got, best = np.array(h.sol), np.inf
    for o in itertools.permutations(range(K)):
        x = sweep(np.zeros(5 * K), o)
        if n == 2:
            y = sweep(x, o)
            best = min(best, np.abs(got - y).max() / (1 + np.abs(y).max()))
            if np.abs(y - x).max() < 0.99 * np.abs(x).max():           # else the second sweep may have been rolled back
                continue
        best = min(best, np.abs(got - x).max() / (1 + np.abs(x).max()))
    ensure(best < 1e-9, "impulses are not those of Gauss-Seidel sweeps", error=best, sweeps=n, hinges=K)
    d.nontrivial(np.abs(sweep(np.zeros(5 * K), range(K)) - sweep(np.zeros(5 * K), range(K), False)).max() > 1e-6)


@sub(quick=90)
def hinges_with_contacts(d):
    """hinges and hand-made contacts of the same bodies solved together (each alone, too): joints hold, contacts obey Coulomb's law, momentum is conserved; non-trivial if both kinds push"""
    eng = hinged(d, 4, 2)
    bs = list(eng.bodies.values())
    mu = d(pos(0.05, 1)) if d.bool() else 0.0
    for i in eng.surfaces_interactions.storage.values():
        i.mu, i.epsilon = np.array([mu, mu, mu]), d.pick([0.0, 0.0, d(num(0, 1))])
    for _ in range(d.int(1, 3)):
        hg = d.pick(list(eng.hinges.values()))
        A = d.pick([hg.parent, hg.child])
        B = d.pick([b for b in bs if b is not A])
        eng.contact_points.append(RT.ContactPoint(A, B, (A.r + B.r) / 2 + d(vec(3, -0.4, 0.4)), d(unit()), d(num(-0.02, 0.02))))
    dt = d.pick([0.001, 0.01, 0.1])
    s, h = initialised(eng, dt)
    c = PB.Contacts()
    c.initialize(dt, s, eng)
    p = eng.params
    p.max_iterations, p.absolute_tolerance, p.relative_tolerance, p.too_small_merit_change = 3000, 1e-11, 0.0, 0.0
    prof = {}
    GS.solve(eng, d.pick([[c, h], [h, c]]), prof, True, "")
    xc, xh = np.array(c.sol), np.array(h.sol)
    du = c.finalize_solution() + h.finalize_solution()
    Jc, Jh, W = c.J.toarray(), h.J.toarray(), s.W.toarray()
    close(du, W @ (Jc.T @ xc + Jh.T @ xh), atol=1e-9, rtol=1e-9, msg="velocity change is not W J^T x of both problems")
    com = sum((b.mass * du[6 * b.idx:6 * b.idx + 3] for b in bs), np.zeros(3))
    sc = 1 + np.abs(xc).max() + np.abs(xh).max()
    if not any(b.is_fixed for b in bs):
        close(com, np.zeros(3), atol=1e-8 * sc, msg="contacts and joints do not conserve linear momentum")
    for b in bs:
        if b.is_fixed:
            close(du[6 * b.idx:6 * b.idx + 6], np.zeros(6), atol=0, msg="fixed body is accelerated")
    ensure((xc[::4] >= 0).all(), "attractive contact", x=xc[::4])
    ev = np.linalg.eigvalsh(Jh @ W @ Jh.T)
    if ev[0] < 0.02 * ev[-1] or prof["exitcode"] != 1 or max(h.r.max(), c.r.max()) > 1e3 or min(h.r.min(), c.r.min()) < 1e-3:
        d.label("badly conditioned")
        return d.nontrivial(False)
    d.nontrivial(xc[::4].max() > 1e-3 and np.abs(xh).max() > 1e-3)
    close(Jh @ du + h.b, np.zeros(len(xh)), atol=1e-4 * sc, msg="joints drift apart after a solve with contacts")
    err = coulomb_error(Jc @ W @ Jc.T, c.b + Jc @ (W @ (Jh.T @ xh)), c.mu, xc)
    ensure(err is None, "Coulomb's law is violated at a contact of hinged bodies: " + str(err))


@sub(quick=48)
def hinged_blocks_on_ground(d):
    """two or three blocks lying on the ground, hinged to each other and flung apart: after a step the joints hold and no block sinks; non-trivial if the joints were pulled and the blocks touched the ground"""
    n = d.int(2, 3)
    eng = API.create_engine()
    p = eng.params
    p.resolution, p.envelope = 6, 0.02
    p.max_iterations, p.absolute_tolerance, p.relative_tolerance, p.too_small_merit_change = 800, 1e-7, 0.0, 0.0
    dims = {"ground": np.array([8.0, 1.0, 4.0])}
    for i in range(n):
        dims[f"b{i}"] = np.array([d(pos(0.6, 1.0)), d(pos(0.3, 0.5)), d(pos(0.6, 1.0))])
    API.create_gravity_force(eng, "g", 9.8, np.array([0.0, -1.0, 0.0]))
    for k, (nm, dim) in enumerate(dims.items()):
        V, F = mg.refine(*mg.box(*dim)) if k else mg.box(*dim)
        API.create_shape(eng, nm, API.create_mesh(V, F))
        API.create_rigid_body(eng, nm)
        API.connect_shape(eng, nm, nm)
        API.set_mass_properties(eng, nm, d(pos(0.5, 4)))
        API.set_orientation(eng, nm, np.array([1.0, 0, 0, 0]), True)
        API.set_position(eng, nm, np.array([-2.4 + 1.2 * k, 0.5 + dim[1] / 2, 0.0]) if k else np.zeros(3), True)
        if k:
            API.connect_force(eng, nm, "g")
    API.set_body_type(eng, "ground", "fixed")
    bs = [eng.bodies[f"b{i}"] for i in range(n)]
    for i in range(n - 1):
        API.create_hinge(eng, f"h{i}")
        API.set_hinge(eng, f"h{i}", f"b{i}", f"b{i + 1}", (bs[i].r + bs[i + 1].r) / 2, d.pick([np.array([0.0, 1, 0]), d(unit())]), "world")
    for i, b in enumerate(bs):
        API.set_velocity(eng, f"b{i}", np.array([d(num(-1, 1)), -d.pick([0.0, d(pos(0.05, 1))]), d(num(-1, 1))]))
        API.set_spin(eng, f"b{i}", np.array([0.0, d(num(-1, 1)), 0.0]))
    mu = d.pick([0.0, d(pos(0.1, 0.8))])
    for x in eng.surfaces_interactions.storage.values():
        x.mu, x.epsilon = np.array([mu, mu, mu]), np.zeros(3)
    frm = {nm: frames(h) for nm, h in eng.hinges.items()}
    at = [b.r.copy() for b in bs]

    def pulls():
        out = []
        for nm, h in eng.hinges.items():
            a, c, ax, _ = frm[nm]
            P, C = h.parent, h.child
            i, j = bs.index(P), bs.index(C)
            dw = P.w - C.w
            out.append(max(np.linalg.norm(P.v + np.cross(P.w, a - at[i]) - C.v - np.cross(C.w, c - at[j])), np.linalg.norm(dw - (dw @ ax) * ax)))
        return max(out)
    before = pulls()
    mass = sum(b.mass for b in bs)
    mom = sum(b.mass * b.v for b in bs)
    API.simulate(eng, 0.01, False)
    supported = all(len({(cp.p[0] > at[i][0], cp.p[2] > at[i][2]) for cp in eng.contact_points if b in (cp.bodyA, cp.bodyB)}) == 4 for i, b in enumerate(bs))
    d.label("%d contacts" % (len(eng.contact_points) // 8 * 8))
    d.nontrivial(before > 0.2 and supported)
    ensure(pulls() < 0.05 + 0.1 * before, "joints of blocks on the ground drift apart after a step", before=before, after=pulls())
    if supported:
        for i, b in enumerate(bs):
            low = min(b.v[1] + np.cross(b.w, np.array([sx, -1, sz]) * dims[f"b{i}"] / 2)[1] for sx in (-1, 1) for sz in (-1, 1))
            ensure(low > -0.05 - 0.1 * before, "a hinged block sinks into the ground", block=b.name, speed=low)
    if mu == 0.0:
        close((sum(b.mass * b.v for b in bs) - mom)[[0, 2]] / mass, np.zeros(2), atol=1e-6, msg="frictionless ground changes the horizontal momentum")


def pair(d, fixed_parent, gravity=True, up=None):
    """two boxes, far enough apart not to touch, joined by a hinge between them"""
    eng = API.create_engine()
    p = eng.params
    p.resolution, p.envelope = 4, 0.01
    p.absolute_tolerance, p.relative_tolerance, p.max_iterations = 1e-11, 0.0, 2000
    p.too_small_merit_change = 0.0                                    # else step lengths shrink until the solver believes to be done
    V, F = mg.box(d(pos(0.2, 0.5)), d(pos(0.2, 0.5)), d(pos(0.2, 0.5)))
    API.create_shape(eng, "s", API.create_mesh(V, F))
    u = d(unit())
    API.create_gravity_force(eng, "g", 9.8, d(unit()) if up is None else up)
    for n, at in (("p", np.zeros(3)), ("c", d(num(1.2, 1.8)) * u)):
        API.create_rigid_body(eng, n)
        API.connect_shape(eng, n, "s")
        API.set_mass_properties(eng, n, d(pos(0.5, 3)))
        eng.bodies[n].inertia = eng.bodies[n].mass * (0.5 + inertia(d))  # well-conditioned: the solver converges
        API.set_orientation(eng, n, d(quat()))
        API.set_position(eng, n, at)
        if gravity:
            API.connect_force(eng, n, "g")
    if fixed_parent:
        API.set_body_type(eng, "p", "fixed")
    API.create_hinge(eng, "h")
    API.set_hinge(eng, "h", "p", "c", d(num(0.2, 0.8)) * u + d(vec(3, -0.2, 0.2)), d(unit()), "world")
    return eng


def disturb(d, eng, size):
    """break the joint: a small displacement and tilt of the child"""
    c = eng.bodies["c"]
    c.r = c.r + size * d(unit()) * d(num(0, 1))
    c.q = ref_qmul(d.pick([1, -1]) * np.concatenate([[1.0], size * d(num(0, 1)) * d(unit()) / 2]), c.q)
    c.q = c.q / np.linalg.norm(c.q)


@sub(quick=50)
def stabilised_joint(d):
    """the error of a broken joint shrinks by the gap reduction factor in each step with pre-stabilisation and stays without; non-trivial if stabilisation is on"""
    eng = pair(d, d.bool(), gravity=False)
    disturb(d, eng, 0.03)
    on, k = d.bool(), d(num(0.2, 1.0))
    eng.params.use_pre_stabilization, eng.params.gap_reduction = on, k
    d.nontrivial(on)
    h = eng.hinges["h"]
    e0 = np.array(defect(h))
    eng.params.time_step = d.pick([0.01, 0.05])                       # the last (only) step may be shorter than the time step
    for i in range(1, 5):
        API.simulate(eng, 0.01)
        want = e0 * ((1 - k) ** i if on else 1.0)
        ensure(len(eng.contact_points) == 0, "boxes apart touch")
        close(defect(h), want, atol=0.1 * e0.max() + 1e-6, rtol=0, msg="joint error after %d steps (anchor distance, axis angle)" % i)


@sub(quick=60)
def badly_broken_joint(d):
    """joints that are far apart and turned by any angle below 180 degrees: a step with a small gap reduction k reduces the distance by k and the angle by k sin(angle); non-trivial beyond 90 degrees"""
    eng = pair(d, d.bool(), gravity=False)
    c, h = eng.bodies["c"], eng.hinges["h"]
    _, _, a, _ = frames(h)
    ang, ax = d(num(0.1, 2.9)), d(unit())
    ax = ax - (ax @ a) * a
    if np.linalg.norm(ax) < 1e-3:
        return d.nontrivial(False)
    ax /= np.linalg.norm(ax)
    c.q = ref_qmul(np.concatenate([[np.cos(ang / 2)], np.sin(ang / 2) * ax]), c.q)
    c.q /= np.linalg.norm(c.q)
    c.r = c.r + d(num(0, 2)) * d(unit())
    k, dt = 0.01, d.pick([0.001, 0.01])
    eng.params.use_pre_stabilization, eng.params.gap_reduction, eng.params.time_step = True, k, d.pick([dt, 5 * dt])
    eng.params.envelope, eng.params.max_iterations = 1e-6, 4000
    e0 = np.array(defect(h))
    close(e0[1], ang, atol=1e-6, msg="harness: angle of the broken joint")
    API.simulate(eng, dt)
    if len(eng.contact_points):
        return d.nontrivial(False)
    d.nontrivial(ang > np.pi / 2)
    e1 = np.array(defect(h))
    close(e0 - e1, k * np.array([e0[0], np.sin(ang)]), atol=0.1 * k * (e0[0] + 0.3), rtol=0, msg="joint error reduced by (anchor distance, axis angle)")


@sub(quick=40)
def joint_holds(d):
    """joints of pairs moving and spinning under gravity hold during a simulation (with stabilisation), the child really swings; non-trivial if the child moved by 0.05"""
    eng = pair(d, d.bool())
    eng.params.use_pre_stabilization = True
    eng.params.time_step, eng.params.max_iterations = 0.002, 150
    h, c, p = eng.hinges["h"], eng.bodies["c"], eng.bodies["p"]
    w, v = d(vec(3, -1, 1)), d(vec(3, -1, 1))
    if not p.is_fixed:
        for b in (p, c):
            b.w, b.v = w, v + np.cross(w, b.r)
    P, C, a, _ = frames(h)
    s = d(num(-2, 2)) * a
    c.w = c.w + s
    c.v = c.v + np.cross(s, c.r - C)
    r0 = np.array(c.r)
    API.simulate(eng, 0.002 * d.int(10, 25))
    d.nontrivial(np.linalg.norm(c.r - r0) > 0.05)
    if len(eng.contact_points):
        return d.nontrivial(False)
    close(defect(h), (0, 0), atol=2e-3, msg="hinge came apart (anchor distance, axis angle)")


@sub(quick=80)
def compound_pendulum(d):
    """a body hinged to a fixed one starts with the angular acceleration of the compound pendulum, whichever of the two is the parent; non-trivial if it is more than 0.5 rad/s^2"""
    eng = pair(d, True)
    h, c, p = eng.hinges["h"], eng.bodies["c"], eng.bodies["p"]
    P, C, a, _ = frames(h)
    if d.bool():                                                      # the swinging body is the parent
        API.set_hinge(eng, "h", "c", "p", C, a, "world")
    dt = 0.001
    s = d(num(-2, 2)) * a
    c.w, c.v = s, np.cross(s, c.r - C)
    arm = c.r - C
    R = ref_matrix(c.q)
    I = a @ R @ np.diag(c.inertia) @ R.T @ a + c.mass * (arm @ arm - (arm @ a) ** 2)
    up = eng.forces["g"].up
    acc = a @ np.cross(arm, -9.8 * c.mass * np.asarray(up)) / I
    d.nontrivial(abs(acc) > 0.5)
    API.simulate(eng, dt)
    close(c.w @ a, s @ a + acc * dt, atol=1e-2 * abs(acc) * dt + 1e-6, msg="angular velocity of a pendulum")
    close(c.w - (c.w @ a) * a, np.zeros(3), atol=1e-2 * (abs(acc) + 10) * dt, msg="pendulum turns off its axis")
    close(np.concatenate([p.r, p.v, p.w]), np.zeros(9), atol=0, msg="fixed body moved")


@sub(quick=60)
def units(d):
    """a mechanism in two systems of units (masses and times scaled by powers of two): joints transmit the same impulses and change the velocities alike; non-trivial if the masses change and the joints pull"""
    eng = hinged(d)
    if d.bool():
        for b in eng.bodies.values():
            b.r = b.r + d(vec(3, -0.1, 0.1))
    for g in eng.hinges.values():
        if g.parent.is_fixed and g.child.is_fixed:          # such a joint transmits anything
            g.child.is_fixed = False
    p = eng.params
    p.max_iterations, p.absolute_tolerance, p.relative_tolerance, p.too_small_merit_change = 40, 0.0, 0.0, 0.0
    p.use_pre_stabilization = d.bool()
    m, t = 2.0 ** d.int(-30, 30), 2.0 ** d.int(-10, 10)
    res = []
    for M, S in ((1.0, 1.0), (m, t)):
        for b in eng.bodies.values():
            b.mass, b.inertia, b.v, b.w = b.mass * M, b.inertia * M, b.v / S, b.w / S
        eng.forces["g"].g /= S ** 2
        s, h = initialised(eng, 0.01 * S)
        GS.solve(eng, [h], {}, False, "")
        res.append((np.array(h.sol) * S / M, np.array(h.finalize_solution()) * S))
    (x, u), (x2, u2) = res
    d.nontrivial(m != 1 and np.abs(x).max() > 1e-3)
    close(x2, x, atol=1e-9 * (1 + np.abs(x).max()), msg="joint impulses depend on the units")
    close(u2, u, atol=1e-9 * (1 + np.abs(u).max()), msg="velocity changes depend on the units")


if __name__ == "__main__":
    sys.exit(main("C27", ["Joints are solved to the solver's tolerance only for well-conditioned systems (condition number below 50); others are judged by momentum and Jacobian only."]))
