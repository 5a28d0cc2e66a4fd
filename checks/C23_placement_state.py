"""C23: placing bodies and joints by frame, and the flat state vectors, describe the same world."""
from pbt import *
import meshgen as mg
import rainbow.simulators.prox_rigid_bodies.api as API
import rainbow.simulators.prox_rigid_bodies.state_storage as SS


def inertia(d):
    a, b, c = d(pos(0.1, 3)), d(pos(0.1, 3)), d(pos(0.1, 3))
    return np.array([b + c, a + c, a + b])


def pose(d, b, generic=False):
    b.q = d(quat_generic() if generic else quat())
    b.r = d(vec(3, -5, 5))
    if d.int(0, 4) == 0:                           # not moved, or not turned
        b.r = np.zeros(3)
    elif d.int(0, 4) == 0:
        b.q = np.array([1.0, 0, 0, 0])


def shaped_engine(d, n=2):
    """engine with n bodies with shapes made of off-centre rotated meshes; returns the model-frame vertices in mesh order"""
    eng = API.create_engine()
    eng.params.resolution = 3
    V, F = mg.closed_mesh(d, place=False, kinds=("box", "hull", "lshape"))
    V = V @ ref_matrix(d(quat_generic())).T + d(vec(3, -3, 3))
    mesh = API.create_mesh(V, F)
    V0 = np.array(mesh.V)
    API.create_shape(eng, "s", mesh)
    for i in range(n):
        API.create_rigid_body(eng, f"b{i}")
        API.connect_shape(eng, f"b{i}", "s")
        pose(d, eng.bodies[f"b{i}"], True)
    return eng, V0


def world(b):
    return np.asarray(b.shape.mesh.V) @ ref_matrix(b.q).T + b.r


@sub(quick=80)
def model_frame_placement(d):
    """set_position/set_orientation sequences with and without use_model_frame against world positions of the mesh; non-trivial if both modes are used"""
    eng, V0 = shaped_engine(d, 1)
    b = eng.bodies["b0"]
    sz = 1 + np.abs(V0).max()
    used = set()
    # world pose of the model frame (Rm, om) and of the body frame (R, o)
    Rs, rs = ref_matrix(b.shape.q), np.array(b.shape.r)
    for _ in range(d.int(1, 6)):
        R, o = ref_matrix(b.q), np.array(b.r)
        Rm = R @ Rs.T
        om = o - Rm @ rs
        mf, what = d.bool(), d.pick("pq")
        used.add(mf)
        if what == "p":
            x = d(vec(3, -5, 5))
            API.set_position(eng, "b0", x, mf)
            if mf:
                close(world(b), V0 @ Rm.T + x, atol=1e-7 * sz, msg="model frame origin was not placed at the given position with unchanged orientation")
            else:
                close(b.r, x, atol=1e-12, msg="body origin")
                close(ref_matrix(b.q), R, atol=1e-12, msg="set_position changed the orientation")
        else:
            q = d(quat()) * d(pos(0.5, 2))
            Rq = ref_matrix(q / np.linalg.norm(q))
            API.set_orientation(eng, "b0", q, mf)
            if mf:
                close(world(b), V0 @ Rq.T + om, atol=1e-7 * sz, msg="model frame was not given the orientation about its own origin")
            else:
                close(b.r, o, atol=1e-12, msg="set_orientation moved the body origin")
                close(ref_matrix(b.q), Rq, atol=1e-9, msg="orientation")
        close(np.linalg.norm(b.q), 1, atol=1e-9, msg="orientation is not a unit quaternion")
    d.nontrivial(len(used) == 2)


@sub(quick=200)
def hinge_sockets(d):
    """hinge frames: parent and child sockets coincide in the world, their z axis is the joint axis, in all three modes; non-trivial if bodies are posed generically"""
    eng, V0 = shaped_engine(d, 2)
    p, c = eng.bodies["b0"], eng.bodies["b1"]
    mode = d.pick(["world", "body", "model"])
    d.label(mode)
    o, s = d(vec(3, -3, 3)), d(unit())
    if d.int(0, 3) == 0:
        [p, c][d.int(0, 1)].is_fixed = True
    API.create_hinge(eng, "h")
    API.set_hinge(eng, "h", "b0", "b1", o.copy(), s * d(length(-3, 3)), mode)
    h = eng.hinges["h"]
    ensure(h.parent is p and h.child is c, "hinge bodies")
    Rp, Rc = ref_matrix(p.q), ref_matrix(c.q)
    if mode == "world":
        ow, sw = o, s
    elif mode == "body":
        ow, sw = Rp @ o + p.r, Rp @ s
    else:
        Rs, rs = ref_matrix(p.shape.q), np.asarray(p.shape.r)
        ow, sw = Rp @ (Rs.T @ (o - rs)) + p.r, Rp @ (Rs.T @ s)
    close(Rp @ h.arm_p + p.r, ow, atol=1e-8, msg="parent anchor")
    close(Rc @ h.arm_c + c.r, ow, atol=1e-8, msg="child anchor")
    close(Rp @ h.axis_p, sw, atol=1e-8, msg="parent axis")
    close(Rc @ h.axis_c, sw, atol=1e-8, msg="child axis")
    Wp, Wc = Rp @ ref_matrix(h.socket_p.q), Rc @ ref_matrix(h.socket_c.q)
    close(Wp, Wc, atol=1e-8, msg="socket frames of parent and child differ in the world")
    close(Wp[:, 2], sw, atol=1e-8, msg="z axis of the socket is not the joint axis")
    close(h.socket_p.r, h.arm_p, atol=0, msg="socket origin")
    close(h.socket_c.r, h.arm_c, atol=0, msg="socket origin")


def storage_engine(d):
    eng = API.create_engine()
    grav = []
    for i in range(d.int(0, 2)):
        g, up = d(pos(0.5, 20)), d(unit())
        API.create_gravity_force(eng, f"g{i}", g, up)
        grav.append((g, up))
    al, be = d(pos(0.01, 3)) * d.pick([1.0, 30.0]), d(pos(0.01, 3)) * d.pick([1.0, 30.0])
    API.create_damping_force(eng, "air", al, be)
    n = d.size(1, 5, 25)
    ref = []
    for i in range(n):
        name = f"b{d.int(0, 99):02d}_{i}"
        API.create_rigid_body(eng, name)
        b = eng.bodies[name]
        pose(d, b)
        b.v, b.w = d(vec(3, -5, 5)) * d.pick([1.0, 1e-3]), d(vec(3, -5, 5)) * d.pick([1.0, 1e-3])
        b.mass, b.inertia = d(pos(0.1, 10)), inertia(d)
        if d.int(0, 2) == 0:                       # small and light, or large and heavy
            b.mass, b.inertia = b.mass * 10.0 ** d.int(-6, 4), b.inertia * 10.0 ** d.int(-6, 4)
        b.is_fixed = d.int(0, 3) == 0
        R = ref_matrix(b.q)
        I = R @ np.diag(b.inertia) @ R.T
        F, T = np.zeros(3), -np.cross(b.w, I @ b.w)
        for k, (g, up) in enumerate(grav):
            API.connect_force(eng, name, f"g{k}")
            F = F - b.mass * g * up
        if d.bool():
            API.connect_force(eng, name, "air")
            F, T = F - al * b.v, T - be * b.w
        ref.append((b, np.array(b.r), np.array(b.q), np.array(b.v), np.array(b.w), I, F, T))
    return eng, ref, grav


@sub(quick=250)
def state_vectors(d):
    """state, external forces, inverse mass and energy of random worlds against formulas; copy back is lossless; non-trivial with a fixed and a free body"""
    eng, ref, grav = storage_engine(d)
    st_ = SS.StateStorage()
    st_.copy_from_engine(eng)
    n = len(ref)
    ensure(st_.x.shape == (7 * n,) and st_.u.shape == (6 * n,) and st_.W.shape == (6 * n, 6 * n), "sizes")
    W = st_.W.toarray()
    kin = pot = 0.0
    for k, (b, r, q, v, w, I, F, T) in enumerate(ref):
        close(st_.x[7 * k:7 * k + 3], r, atol=0, msg="position part of the state")
        close(st_.x[7 * k + 3:7 * k + 7], q, atol=0, msg="orientation part of the state")
        close(st_.u[6 * k:6 * k + 3], v, atol=0, msg="linear velocity part of the state")
        close(st_.u[6 * k + 3:6 * k + 6], w, atol=0, msg="spin part of the state")
        blk = np.zeros((6, 6))
        if b.is_fixed:
            close(st_.f_ext[6 * k:6 * k + 6], np.zeros(6), atol=0, msg="force on a fixed body")
        else:
            blk[:3, :3] = np.eye(3) / b.mass
            blk[3:, 3:] = np.linalg.inv(I)
            close(st_.f_ext[6 * k:6 * k + 3], F, atol=1e-9 * (b.mass + 1), msg="external force")
            close(st_.f_ext[6 * k + 3:6 * k + 6], T, atol=1e-9 * (50 * b.inertia.max() + np.abs(T).max()), msg="external torque (gyroscopic and damping)")
            kin += 0.5 * b.mass * v @ v + 0.5 * w @ I @ w
            pot += sum(b.mass * g * up @ r for g, up in grav)
        close(W[6 * k:6 * k + 6, 6 * k:6 * k + 6], blk, atol=1e-9 * np.abs(blk).max(), rtol=1e-8, msg="inverse mass block")
        W[6 * k:6 * k + 6, 6 * k:6 * k + 6] = 0
    ensure(not W.any(), "bodies are coupled through the inverse mass matrix")
    close(st_.delta_u_ext, st_.W.toarray() @ st_.f_ext, atol=1e-9, rtol=1e-9, msg="acceleration is not inverse mass times force")
    ek, ep = st_.compute_total_energy(eng)
    close(ek, kin, atol=1e-12, rtol=1e-8, msg="kinetic energy")
    close(ep, pot, atol=1e-8 * (1e-3 + sum(b.mass * g for b, *_ in ref if not b.is_fixed for g, up in grav)), rtol=1e-7, msg="potential energy")
    st_.copy_to_engine(eng)
    for b, r, q, v, w, *_ in ref:
        close(np.concatenate([b.r, b.q, b.v, b.w]), np.concatenate([r, q, v, w]), atol=0, rtol=0, msg=f"copying the state back changed {b.name}")
    fx = [b.is_fixed for b, *_ in ref]
    d.nontrivial(any(fx) and not all(fx))


@sub(quick=200)
def explicit_updates(d):
    """velocity and position updates of random states against x += dt*u, q += dt/2*w*q (unit); fixed bodies stay; non-trivial with a spinning free body"""
    eng, ref, _ = storage_engine(d)
    s = SS.StateStorage()
    s.copy_from_engine(eng)
    n = len(ref)
    du = d.pick([1.0, 1.0, 1e-3, 100.0]) * np.array([d(num(-3, 3)) for _ in range(6 * n)])
    dt = d(pos(1e-4, 0.5))
    s.velocity_update(du)
    own = d.bool()
    u2 = d.pick([1.0, 1.0, 1e-3, 100.0]) * np.array([d(num(-3, 3)) for _ in range(6 * n)]) if own else None
    u0 = np.array(s.u)
    s.position_update(dt, eng, u2) if own else s.position_update(dt, eng)
    close(s.u, u0, atol=0, rtol=0, msg="position update changed the velocities")
    use = u2 if own else u0
    for k, (b, r, q, v, w, *_) in enumerate(ref):
        close(u0[6 * k:6 * k + 6], np.concatenate([v, w]) + du[6 * k:6 * k + 6], atol=1e-12, rtol=1e-13, msg="velocity update")
        x1, q1 = s.x[7 * k:7 * k + 3], s.x[7 * k + 3:7 * k + 7]
        if b.is_fixed:
            close(x1, r, atol=0, rtol=0, msg="fixed body moved")
            close(q1, q, atol=0, rtol=0, msg="fixed body turned")
        else:
            close(x1, r + dt * use[6 * k:6 * k + 3], atol=1e-12, rtol=1e-13, msg="position update")
            qq = q + 0.5 * dt * ref_qmul(np.concatenate([[0.0], use[6 * k + 3:6 * k + 6]]), q)
            close(q1, qq / np.linalg.norm(qq), atol=1e-12, msg="orientation update")
    d.nontrivial(any(not b.is_fixed for b, *_ in ref))


@sub(quick=30)
def state_refusals(d):
    """updates before initialisation and bodies without mass are refused"""
    s = SS.StateStorage()
    eng, ref, _ = storage_engine(d)
    for f in (lambda: s.velocity_update(np.zeros(6 * len(ref))), lambda: s.position_update(0.1, eng)):
        try:
            f()
        except ValueError:
            pass
        else:
            fail("update of an uninitialised state was accepted")
    b = ref[d.int(0, len(ref) - 1)][0]
    b.mass, b.is_fixed = 0.0, False
    try:
        s.copy_from_engine(eng)
    except ValueError:
        return
    fail("free body without mass was accepted")


if __name__ == "__main__":
    sys.exit(main("C23", ["All gravities of an engine are connected to all bodies when energy is compared (as in all bundled scenes)."]))
