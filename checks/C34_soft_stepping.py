"""C34: the soft-body stepper integrates the semi-discrete equations of motion under its boundary conditions."""
from pbt import *
import softgen as sg
from softgen import API, ME, vols
import rainbow.simulators.prox_soft_bodies.solver as SO


def build(d, n=None, soft=False, rho=None, still=False):
    """1-3 far apart deformed moving bodies"""
    eng = sg.engine()
    out = []
    for i in range(n or d.int(1, 3)):
        V, T = sg.tetmesh(d)
        V = V + np.array([100.0 * i, 0, 0])
        API.create_soft_body(eng, f"b{i}", V, T)
        m = sg.material(eng, f"m{i}", d, E=10.0 ** d.int(1, 3) if soft else None, rho=rho)
        API.set_material(eng, f"b{i}", f"m{i}")
        b = eng.bodies[f"b{i}"]
        rng = np.random.RandomState(d.int(0, 9999))
        dx = sg.deform(d, b.x0, rigid=False) - b.x0
        hmin = (6 * vols(b.x0, b.T).min()) ** (1 / 3)
        dx = dx - dx.mean(axis=0)
        dx = dx * (0 if still else min(1.0, 0.05 * hmin / (np.abs(dx).max() + 1e-12)))
        x = b.x0 + dx
        if vols(x, b.T).min() <= 0.3 * vols(b.x0, b.T).min():
            x = b.x0.copy()
        API.set_spatial_coordinates(eng, b.name, x)
        if not still:
            b.u = rng.uniform(-0.1, 0.1, 3) + rng.uniform(-0.01, 0.01, x.shape)
        g = d(vec(3, -10, 10))
        API.set_gravity(eng, b.name, g)
        m["g"] = np.array(g)
        out.append((b, m))
    stable(eng, out)
    return eng, out


def stable(eng, bs):
    """a time step well below the stability limit of the stiffest element"""
    dt = 1.0
    for b, m in bs:
        h = 3 * vols(b.x0, b.T) / (max_face(b) * 1.0)
        c = np.sqrt(m["E"] / ((1 - 2 * m["nu"]) * m["rho"]))
        dt = min(dt, 0.05 * h.min() / c)
        if m["c"] > 0:
            dt = min(dt, 0.1 * m["rho"] / m["c"])
    eng.params.time_step = dt
    return dt


def max_face(b):
    best = np.zeros(len(b.T))
    for f in [(1, 2, 3), (0, 2, 3), (0, 1, 3), (0, 1, 2)]:
        P = b.x0[b.T[:, f]]
        best = np.maximum(best, np.linalg.norm(np.cross(P[:, 1] - P[:, 0], P[:, 2] - P[:, 0]), axis=1) / 2)
    return best


def nodal_mass(b, m):
    mass = np.zeros(len(b.x0))
    np.add.at(mass, b.T.ravel(), np.repeat(m["rho"] * vols(b.x0, b.T) / 4, 4))
    return mass


def mass_matrix(b, m):
    """nodal masses, or the consistent mass matrix"""
    if b.is_lumped:
        return np.diag(nodal_mass(b, m))
    M = np.zeros((len(b.x0), len(b.x0)))
    for t, v in zip(b.T, vols(b.x0, b.T)):
        M[np.ix_(t, t)] += m["rho"] * v / 20 * (1 + np.eye(4))
    return M


def consistent(eng, b):
    b.is_lumped = False
    API.set_material(eng, b.name, b.material_description.name)


def ref_forces(b, m, x, u):
    """all nodal forces of one body from scratch"""
    lam = m["E"] * m["nu"] / ((1 + m["nu"]) * (1 - 2 * m["nu"]))
    mu = m["E"] / (2 * (1 + m["nu"]))
    M = getattr(ME, m["model"])
    mass = nodal_mass(b, m)
    f = mass[:, None] * m["g"] - m["c"] / m["rho"] * mass_matrix(b, m) @ u
    for t in b.T:
        D0, D = (b.x0[t[1:]] - b.x0[t[0]]).T, (x[t[1:]] - x[t[0]]).T
        inv = np.linalg.inv(D0)
        H = -np.linalg.det(D0) / 6 * M.pk1_stress(D @ inv, lam, mu) @ inv.T
        f[t[1:]] += H.T
        f[t[0]] -= H.sum(axis=1)
    for tc in b.traction_conditions:
        a = np.linalg.norm(np.cross(x[tc.j] - x[tc.i], x[tc.k] - x[tc.i])) / 2
        for v in (tc.i, tc.j, tc.k):
            f[v] += a / 3 * tc.traction
    return f


@sub(quick=50)
def integrates_forces(d):
    """several simulate() calls, also over fractions of a step, against an independent semi-implicit integration, with lumped or consistent masses, tractions, fixed bodies and constraints; non-trivial with a constraint or traction"""
    eng, bs = build(d)
    lab = set()
    for b, m in bs:
        if d.int(0, 2) == 0:
            n, o = d(unit()), b.x0.mean(axis=0)
            API.create_dirichlet_conditions(eng, b.name, lambda p: (p - o) @ n)
            lab.add("dirichlet")
        if d.int(0, 2) == 0:
            n2, o2 = d(unit()), b.x0.mean(axis=0)
            API.create_traction_conditions(eng, b.name, lambda p: (p - o2) @ n2, d(vec(3, -1, 1)) * m["E"] * 0.01)
            lab.add("traction")
        if d.int(0, 3) == 0:
            API.set_type(eng, b.name, d.pick(["fixed", "Fixed", "FIXED"]))
            lab.add("fixed")
        if not b.dirichlet_conditions and d.int(0, 2) == 0:
            consistent(eng, b)
            lab.add("consistent")
    for l in lab:
        d.label(l)
    d.nontrivial(bool(lab))
    dt = eng.params.time_step
    ref = {b.name: (b.x.copy(), b.u.copy()) for b, m in bs}
    dts = []
    for _ in range(d.int(1, 3)):
        n, part = d.int(0, 3), d.pick([0.0, 0.0, 0.25, 0.5, 0.8])
        n += n + part == 0
        API.simulate(eng, dt * (n + part), d.bool())
        dts += [dt] * n + [dt * part] * (part > 0)
    steps = len(dts)
    ensure(eng.params.time_stamp == steps, "number of steps taken", got=eng.params.time_stamp, want=steps)
    for b, m in bs:
        x, u = ref[b.name]
        idx = [c.idx for c in b.dirichlet_conditions]
        val = np.array([b.x0[i] for i in idx])
        mass = mass_matrix(b, m)
        start = x.copy()
        for h in dts:
            if idx:
                x[idx] = val
            if b.is_fixed:
                u = np.zeros_like(u)
            if idx:
                u[idx] = 0
            u = u + h * np.linalg.solve(mass, ref_forces(b, m, x, u))
            if b.is_fixed:
                u[:] = 0
            if idx:
                u[idx] = 0
            x = x + h * u
        scx, scu = 1 + np.abs(x).max(), 1 + np.abs(u).max()
        close(b.u, u, atol=1e-7 * scu, msg="velocities after %d steps" % steps)
        close(b.x, x, atol=1e-9 * scx, msg="positions after %d steps" % steps)
        if idx:
            close(b.x[idx], val, atol=0, msg="constrained nodes moved")
            close(b.u[idx], 0 * val, atol=0, msg="constrained nodes have velocity")
        if b.is_fixed:
            close(np.delete(b.x, idx, axis=0), np.delete(start, idx, axis=0), atol=0, msg="a fixed body moved")


def ref_run(b, m, x, u, dts):
    """independent semi-implicit integration of one body with its current conditions"""
    x, u = x.copy(), u.copy()
    idx = [c.idx for c in b.dirichlet_conditions]
    val = np.array([b.x0[i] for i in idx])
    mass = mass_matrix(b, m)

    def hold(v):
        if b.is_fixed:
            v[:] = 0
        if idx:
            v[idx] = 0
    for h in dts:
        if idx:
            x[idx] = val
        hold(u)
        u = u + h * np.linalg.solve(mass, ref_forces(b, m, x, u))
        hold(u)
        x = x + h * u
        if vols(x, b.T).min() < 0.2 * vols(b.x0, b.T).min():
            return None               # about to be crushed
    return x, u


@sub(quick=60)
def changes_between_runs(d):
    """one or two bodies that share some of their material parameters, their material or their gravity; between runs gravity, materials, constraints, loads, types and velocities change (also back); motion is that of the independent integration; non-trivial if two or more things changed"""
    eng = sg.engine()
    bs, mats = [], []
    V, T = sg.tetmesh(d)
    for i in range(d.int(1, 2)):
        if i and d.bool():
            V, T = sg.tetmesh(d)
        API.create_soft_body(eng, f"b{i}", V + np.array([100.0 * i, 0, 0]), T)
        b = eng.bodies[f"b{i}"]
        if i and d.int(0, 3) == 0:
            m = mats[0]
            API.set_material(eng, b.name, "m0")
            d.label("same material")
        else:
            keep = {k: mats[0][k] for k in ("E", "nu", "rho", "c", "model") if d.bool()} if i else {}
            m = sg.material(eng, f"m{i}", d, **keep)
            m["name"] = f"m{i}"
            mats.append(m)
            API.set_material(eng, b.name, f"m{i}")
        g = bs[0][2] if i and d.bool() else np.array(d(vec(3, -10, 10)))
        API.set_gravity(eng, b.name, g)
        x = sg.deform(d, b.x0, 0.02, rigid=False)
        if vols(x, b.T).min() <= 0.5 * vols(b.x0, b.T).min():
            x = b.x0.copy()
        API.set_spatial_coordinates(eng, b.name, x)
        API.set_velocity(eng, b.name, d(vec(3, -0.1, 0.1)))
        bs.append([b, m, g])
    changes = 0
    old = {b.name: [g] for b, m, g in bs}
    for run in range(d.int(2, 4)):
        for k in range(d.int(0, 3) if run else d.int(0, 1)):
            rec = d.pick(bs)
            b, m, g = rec
            what = d.pick(["gravity", "back", "elasticity", "density", "viscosity", "model", "grip", "regrip", "release", "load", "unload", "type", "velocity", "material"])
            size = np.ptp(b.x0, axis=0).max()
            if what in ("gravity", "back"):
                rec[2] = d.pick(old[b.name]) if what == "back" else np.array(d.pick([d(vec(3, -10, 10)), np.zeros(3), -g]))
                old[b.name].append(rec[2])
                API.set_gravity(eng, b.name, rec[2])
            elif what == "elasticity":
                m["E"], m["nu"] = d.pick([m["E"], m["E"] * d(pos(0.2, 3))]), d.pick([m["nu"], d(num(0.0, 0.45))])
                API.set_elasticity(eng, m["name"], m["E"], m["nu"])
            elif what == "density":
                m["rho"] *= d(pos(0.2, 3))
                API.set_mass_density(eng, m["name"], m["rho"])
            elif what == "viscosity":
                m["c"] = d.pick([0.0, d(pos(0.1, 50))])
                API.set_viscosity(eng, m["name"], m["c"])
            elif what == "model":
                m["model"] = d.pick(sg.MODELS)
                API.set_constitutive_model(eng, m["name"], getattr(ME, m["model"]))
            elif what in ("grip", "regrip"):
                n = d.pick([np.eye(3)[d.int(0, 2)], d(unit())])
                n = n * d.pick([1, -1])
                s = np.sort(b.x0 @ n)
                if what == "regrip" and b.dirichlet_conditions:   # as many nodes as before, elsewhere
                    c = s[min(len({t.idx for t in b.dirichlet_conditions}), len(s)) - 1]
                else:
                    c = s[d.int(0, max(0, len(s) // 2))]
                b.dirichlet_conditions = []
                API.create_dirichlet_conditions(eng, b.name, lambda p: p @ n - c - 1e-9 * size)
                # gripping pulls the nodes back to their material positions: start from there
                API.set_spatial_coordinates(eng, b.name, b.x0)
            elif what == "release":
                b.dirichlet_conditions = []
            elif what == "load":
                n, o = d(unit()), b.x0.mean(axis=0)
                API.create_traction_conditions(eng, b.name, lambda p: (p - o) @ n, d(vec(3, -1, 1)) * m["E"] * 0.01)
            elif what == "unload":
                b.traction_conditions = []
            elif what == "type":
                API.set_type(eng, b.name, d.pick(["fixed", "free"]))
            elif what == "velocity":
                API.set_velocity(eng, b.name, d(vec(3, -0.1, 0.1)))
            else:
                rec[1] = d.pick(mats)
                API.set_material(eng, b.name, rec[1]["name"])
            d.label(what)
            changes += run > 0
        stable(eng, [(b, m) for b, m, g in bs])
        hmin = min((6 * vols(b.x0, b.T).min()) ** (1 / 3) for b, m, g in bs)
        dt = eng.params.time_step = min(eng.params.time_step, 0.05 * np.sqrt(hmin / 10))
        dts = [dt] * d.int(1, 3)
        want = {b.name: ref_run(b, dict(m, g=g), b.x, b.u, dts) for b, m, g in bs}
        if any(w is None for w in want.values()):
            break
        API.simulate(eng, sum(dts), d.bool())
        for b, m, g in bs:
            x, u = want[b.name]
            close(b.u, u, atol=1e-7 * (1 + np.abs(u).max()), msg="velocities in run %d" % run)
            close(b.x, x, atol=1e-9 * (1 + np.abs(x).max()), msg="positions in run %d" % run)
    d.nontrivial(changes >= 2)


@sub(quick=40)
def free_motion(d):
    """an undeformed free body in free fall moves like a particle; non-trivial if it moves and falls"""
    eng, bs = build(d, 1, still=True)
    b, m = bs[0]
    v = d(vec(3, -3, 3))
    API.set_velocity(eng, b.name, v)
    m["c"] = 0
    API.set_viscosity(eng, "m0", 0)
    dt, steps = stable(eng, bs), d.int(1, 15)
    x0 = b.x.copy()
    d.nontrivial(np.abs(v).max() > 0.1 and np.abs(m["g"]).max() > 0.1)
    API.simulate(eng, dt * steps)
    want_u = np.array(v) + steps * dt * m["g"]
    want_x = x0 + steps * dt * np.array(v) + dt * dt * m["g"] * steps * (steps + 1) / 2
    close(b.u, np.broadcast_to(want_u, b.u.shape), atol=1e-6 * (1 + np.abs(want_u).max()), msg="velocity in free fall")
    close(b.x, want_x, atol=1e-8 * (1 + np.abs(want_x).max()), msg="position in free fall")


@sub(quick=40)
def momentum(d):
    """without external forces elastic bodies keep their linear and angular momentum, damping only slows down; non-trivial if deformed and moving"""
    eng, bs = build(d, 1)
    b, m = bs[0]
    d.nontrivial(np.abs(b.x - b.x0).max() > 1e-4)
    API.set_gravity(eng, b.name, np.zeros(3))
    if d.bool():
        consistent(eng, b)
    dt = eng.params.time_step
    M = mass_matrix(b, m)
    mass = nodal_mass(b, m)
    steps = d.int(1, 20)
    p0, u0 = mass @ b.u, np.abs(b.u).max()
    L0 = np.cross(b.x, M @ b.u).sum(axis=0)
    API.simulate(eng, dt * steps)
    p1, L1 = mass @ b.u, np.cross(b.x, M @ b.u).sum(axis=0)
    sc = mass.sum() * (u0 + np.abs(b.u).max()) + 1e-12
    if m["c"] == 0:
        close(p1, p0, atol=1e-8 * sc, msg="linear momentum changed")
        close(L1, L0, atol=1e-8 * sc * np.abs(b.x).max(), msg="angular momentum changed")
    else:
        d.label("damped")
        f = (1 - dt * m["c"] / m["rho"]) ** steps
        close(p1, p0 * f, atol=1e-8 * sc, msg="momentum of a damped body")


@sub(quick=25)
def energy_bounded(d):
    """a stable step keeps the energy of a free vibrating body bounded; non-trivial if deformed"""
    eng, bs = build(d, 1)
    b, m = bs[0]
    API.set_gravity(eng, b.name, np.zeros(3))
    dt = eng.params.time_step
    mass = nodal_mass(b, m)
    tot = lambda: 0.5 * (mass[:, None] * b.u ** 2).sum() + SO.compute_elastic_energy(eng, {}, False) - rest
    rest = 0.0
    x = b.x
    b.x = b.x0
    rest = SO.compute_elastic_energy(eng, {}, False)
    b.x = x
    e0 = tot()
    d.nontrivial(np.abs(b.x - b.x0).max() > 1e-4)
    API.simulate(eng, dt * 60)
    e1 = tot()
    ensure(-1e-9 * abs(rest) - 1e-9 * e0 <= e1 <= 1.3 * e0 + 1e-9 * abs(rest) + 1e-12, "energy of a vibrating body exploded", before=e0, after=e1)


@sub(quick=30)
def rotated_world(d):
    """rotating and translating the whole world rotates and translates the motion; non-trivial unless the rotation is trivial"""
    eng, bs = build(d, 1)
    b, m = bs[0]
    q, t = ref_matrix(d(quat_generic())), d(vec(3, -2, 2))
    d.nontrivial(True)
    e2 = sg.engine()
    c = d.int(0, 3)
    API.create_soft_body(e2, "r", b.x0 @ q.T + t, b.T)
    API.create_material(e2, "m")
    API.set_elasticity(e2, "m", m["E"], m["nu"])
    API.set_mass_density(e2, "m", m["rho"])
    API.set_viscosity(e2, "m", m["c"])
    API.set_constitutive_model(e2, "m", getattr(ME, m["model"]))
    API.set_material(e2, "r", "m")
    API.set_gravity(e2, "r", q @ m["g"])
    r = e2.bodies["r"]
    # nodes are reordered: match by material position
    order = [int(np.argmin(np.linalg.norm(r.x0 - p, axis=1))) for p in b.x0 @ q.T + t]
    ensure(sorted(order) == list(range(len(order))), "nodes of the created body are not those of the mesh")
    x, u = np.zeros_like(b.x), np.zeros_like(b.u)
    x[order], u[order] = b.x @ q.T + t, b.u @ q.T
    API.set_spatial_coordinates(e2, "r", x)
    r.u = u
    dt = eng.params.time_step
    e2.params.time_step = dt
    steps = d.int(1, 5)
    API.simulate(eng, dt * steps)
    API.simulate(e2, dt * steps)
    close(r.x[order], b.x @ q.T + t, atol=1e-7 * (1 + np.abs(b.x).max()), msg="rotated motion")
    close(r.u[order], b.u @ q.T, atol=1e-6 * (1 + np.abs(b.u).max()), msg="rotated velocity")


@sub(quick=30)
def time_and_log(d):
    """simulate() covers exactly the requested time in steps of at most the time step, logging each truthfully; non-trivial with a remainder step"""
    eng, bs = build(d, 2)
    dt = eng.params.time_step
    T = dt * d.pick([0.3, 1.0, 1.5, 2.0, 3.0, 3.7])
    want = int(np.ceil(T / dt - 1e-6))
    d.nontrivial(abs(T / dt - round(T / dt)) > 1e-3)
    calls = d.int(1, 2)
    for c in range(calls):
        API.simulate(eng, T, True)
    log = [s for s in API.get_log(eng) if "dt" in s]
    ensure(len(log) == want * calls and eng.params.time_stamp == want * calls, "number of steps", log=len(log), want=want * calls)
    close(sum(s["dt"] for s in log), T * calls, rtol=1e-9, atol=1e-12, msg="time covered")
    ensure(max(s["dt"] for s in log) <= dt * (1 + 1e-12), "a step is longer than the time step")
    last = log[-1]
    close(last["kinetic_energy"], SO.compute_kinetic_energy(eng, {}, False), rtol=1e-12, atol=1e-12, msg="logged kinetic energy")
    close(last["potential_energy"], SO.compute_potential_energy(eng, {}, False), rtol=1e-12, atol=1e-12, msg="logged potential energy")
    close(last["elastic_energy"], SO.compute_elastic_energy(eng, {}, False), rtol=1e-12, atol=1e-12, msg="logged elastic energy")
    ensure(last["contact_points"] == len(eng.contact_points) == 0, "contacts of bodies far apart")
    for bad in (0, -1.0):
        try:
            API.simulate(eng, bad)
        except ValueError:
            continue
        fail("simulate accepts a non-positive time")


@sub(quick=20)
def log_with_contacts(d):
    """profiled runs of touching bodies: each log entry tells the number of contacts, the deepest penetration and the energies after its step; non-trivial if the bodies overlap"""
    eng, a, b, R, mu = sg.touching_scene(d)
    eng.params.max_iterations = 20
    eng.params.use_post_stabilization = d.bool()
    API.set_velocity(eng, "b", R @ d(vec(3, -1, 1)))
    deep = False
    for j in range(d.int(1, 3)):
        API.simulate(eng, eng.params.time_step, True)
        log = [s for s in API.get_log(eng) if "dt" in s]      # the set-up of a stepper has its own entry
        ensure(len(log) == j + 1, "one log entry per step", got=len(log), want=j + 1)
        gaps = [c.g for c in eng.contact_points]
        e = log[-1]
        ensure(e["contact_points"] == len(gaps), "logged number of contacts", got=e["contact_points"], want=len(gaps))
        close(e["max_penetration"], max([0.0] + [-g for g in gaps]), atol=0, msg="logged penetration")
        for k, f in (("kinetic", SO.compute_kinetic_energy), ("potential", SO.compute_potential_energy), ("elastic", SO.compute_elastic_energy)):
            close(e[k + "_energy"], f(eng, {}, False), rtol=1e-12, atol=1e-12, msg="logged %s energy" % k)
        deep = deep or any(g < 0 for g in gaps)
    d.nontrivial(deep)


@sub(quick=30)
def api_order(d):
    """setting up the same world in another order, or in an already simulated engine, gives the same motion; non-trivial always"""
    V, T = sg.tetmesh(d)
    E, nu, rho, c = 10.0 ** d.int(2, 4), d(num(0, 0.4)), 10.0 ** d.int(1, 3), d.pick([0.0, 3.0])
    model, g = getattr(ME, d.pick(sg.MODELS)), d(vec(3, -10, 10))
    rng = np.random.RandomState(d.int(0, 9999))
    late = d.bool()
    d.label("late" if late else "order")
    d.nontrivial(True)
    ops = [lambda e: API.set_elasticity(e, "m", E, nu), lambda e: API.set_mass_density(e, "m", rho),
           lambda e: API.set_viscosity(e, "m", c), lambda e: API.set_constitutive_model(e, "m", model),
           lambda e: API.set_material(e, "b", "m"), lambda e: API.set_gravity(e, "b", g)]
    res = []
    for variant in range(2):
        e = sg.engine()
        off = 0
        if variant and late:
            API.create_soft_body(e, "other", V + np.array([500.0, 0, 0]), T)
            e.params.time_step = 1e-5
            API.simulate(e, 2e-5)
        API.create_soft_body(e, "b", V, T)
        API.create_material(e, "m")
        todo = list(ops)
        if variant:
            for i in range(len(todo) - 1, 0, -1):
                j = d.int(0, i)
                todo[i], todo[j] = todo[j], todo[i]
        for op in todo:
            op(e)
        b = e.bodies["b"]
        if not variant:
            dx, u = sg.deform(d, b.x0, 0.05, rigid=False) - b.x0, rng.uniform(-0.1, 0.1, V.shape)
            if vols(b.x0 + dx, b.T).min() <= 0:
                dx = 0 * dx
        API.set_spatial_coordinates(e, "b", b.x0 + dx)
        b.u = u.copy()
        dt = stable(e, [(b, dict(E=E, nu=nu, rho=rho, c=c))])
        dt = min(dt, 1e-3)
        e.params.time_step = dt
        API.simulate(e, 3 * dt)
        res.append((b.x.copy(), b.u.copy()))
    close(res[1][0], res[0][0], atol=1e-10 * (1 + np.abs(V).max()), msg="positions depend on the order of set-up calls")
    close(res[1][1], res[0][1], atol=1e-8, rtol=1e-8, msg="velocities depend on the order of set-up calls")


@sub(quick=40)
def units(d):
    """one body with loads, grips and a motion, measured in two systems of units (length, mass and time scaled by powers of two): the same motion; non-trivial if two of the units change and it is deformed, loaded or gripped"""
    V, T = sg.tetmesh(d)
    L, S, M = 2.0 ** d.int(-14, 8), 2.0 ** d.int(-6, 6), 2.0 ** d.int(-30, 6)
    if d.bool():
        L = 2.0 ** d.int(-14, 0)
    E, nu, rho, c = 10.0 ** d.int(2, 4), d(num(0, 0.4)), 10.0 ** d.int(0, 3), d.pick([0.0, 3.0])
    model, g = getattr(ME, d.pick(sg.MODELS)), d(vec(3, -10, 10))
    grip, pull = d.bool() and d(unit()), d.bool() and d(unit())
    load, lumped, steps = d(vec(3, -1, 1)) * E * 0.01, d.bool() or grip is not False, d.int(1, 4)
    rng = np.random.RandomState(d.int(0, 9999))
    res = []
    for l, t, m in ((1.0, 1.0, 1.0), (L, S, M)):
        e = sg.engine()
        e.params.envelope *= l
        API.create_soft_body(e, "b", V * l, T)
        b = e.bodies["b"]
        API.create_material(e, "m")
        API.set_elasticity(e, "m", E * m / (l * t ** 2), nu)
        API.set_mass_density(e, "m", rho * m / l ** 3)
        API.set_viscosity(e, "m", c * m / (l ** 3 * t))
        API.set_constitutive_model(e, "m", model)
        b.is_lumped = lumped
        API.set_material(e, "b", "m")
        API.set_gravity(e, "b", g * l / t ** 2)
        if not res:
            x0, (dx, u) = b.x0, (sg.deform(d, b.x0, 0.05, rigid=False) - b.x0, rng.uniform(-0.1, 0.1, b.x0.shape))
            dx = dx - dx.mean(axis=0)
            dx = dx * min(1.0, 0.1 * (6 * vols(x0, b.T).min()) ** (1 / 3) / (np.abs(dx).max() + 1e-12))
            if vols(x0 + dx, b.T).min() <= 0.3 * vols(x0, b.T).min():
                dx = 0 * dx
            dt = min(1e-3, stable(e, [(b, dict(E=E, nu=nu, rho=rho, c=c))]))
            mid, off = x0.mean(axis=0), 0.01 * np.ptp(x0, axis=0).max()
        else:
            close(b.x0 / l, x0, atol=1e-12 * (1 + np.abs(x0).max()), msg="nodes in other units")
        # planes that no node is on
        if grip is not False:
            API.create_dirichlet_conditions(e, "b", lambda p: (p / l - mid) @ grip + off * 0.7312)
        if pull is not False:
            API.create_traction_conditions(e, "b", lambda p: (p / l - mid) @ pull + off * 0.3919, load * m / (l * t ** 2))
        API.set_spatial_coordinates(e, "b", (x0 + dx) * l)
        b.u = u * l / t
        e.params.time_step = dt * t
        API.simulate(e, steps * dt * t)
        res.append((b.x / l, b.u * t / l, len(b.dirichlet_conditions), len(b.traction_conditions)))
    d.nontrivial((L != 1) + (S != 1) + (M != 1) > 1 and (np.abs(dx).max() > 1e-4 or res[0][2] + res[0][3] > 0))
    ensure(res[0][2:] == res[1][2:], "grips and loads depend on the units", got=res[1][2:], want=res[0][2:])
    if not np.isfinite(res[0][1]).all() or np.abs(res[0][1]).max() > 1e6:
        return
    close(res[1][1], res[0][1], atol=1e-8 * (1 + np.abs(res[0][1]).max()), msg="velocities depend on the units")
    close(res[1][0], res[0][0], atol=1e-10 * (1 + np.abs(res[0][0]).max()), msg="positions depend on the units")


if __name__ == "__main__":
    sys.exit(main("C34", ["consistent masses only without constrained nodes", "time steps below the stability limit of the explicit force evaluation",
                          "bodies are far apart; contacts are C35"]))
