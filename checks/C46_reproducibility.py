"""C46: a simulation is a function of the scene and its state: it repeats bit for bit, other engines, profiling and the
way time is cut into calls do not matter, and a fresh engine put into a state of an old one goes on as the old one does."""
import random
from pbt import *
import meshgen as mg
import softgen as sg
import rainbow.simulators.prox_rigid_bodies.api as RA
import rainbow.simulators.prox_soft_bodies.api as SA
import rainbow.simulators.prox_soft_bodies.mechanics as ME
import rainbow.simulators.inverse_kinematics.api as IK
import rainbow.geometry.volume_mesh as VM
import rainbow.simulators.prox_rigid_bodies.collision_detection as RCD
import rainbow.simulators.prox_soft_bodies.collision_detection as SCD


# ---------------------------------------------------------------- rigid bodies
def rigid_plan(d):
    """a heap of boxes and balls on a floor, some of them joined by hinges, some sharing a shape"""
    rng = np.random.RandomState(d.int(0, 99999))
    n = d.int(1, 4)
    plan = dict(n=n, mu=d(num(0, 1.2)), eps=d.pick([0.0, 0.5]), bounce=d.bool(), pre=d.bool(), post=d.bool(), g=d.pick([True, True, False]),
                damp=d.int(0, 3) == 0, dt=d.pick([0.01, 0.005, 0.0125]), K=d.pick([3, 4]), chunk=d.pick([255, 7]), env=d.pick([0.01, 0.05]),
                share=d.bool(), hinge=n > 1 and d.int(0, 2) == 0, floor=d.int(0, 4) > 0, half=[], pose=[], vel=[], kind=[], dens=[])
    top = 0.0
    for i in range(n):
        h = rng.uniform(0.3, 0.6, 3) if not plan["share"] or i == 0 else plan["half"][0]
        plan["half"].append(h)
        plan["kind"].append("box" if rng.randint(4) else "hull")
        q = np.array([1.0, 0, 0, 0]) if rng.randint(2) else rng.normal(size=4)
        q = q / np.linalg.norm(q)
        reach = h[2] if q[0] == 1 else np.linalg.norm(h)
        side = rng.uniform(-0.2, 0.2, 2)
        plan["pose"].append((np.array([side[0], side[1], top + reach + rng.uniform(-0.02, 0.01)]), q))
        top += 2 * reach * (1.0 if q[0] == 1 else 0.8)
        s = d.pick([0.0, 1.0])
        plan["vel"].append((s * rng.uniform(-1, 1, 3), s * rng.uniform(-2, 2, 3)))
        plan["dens"].append(rng.uniform(0.5, 5))
    plan["axis"] = (rng.randint(n), rng.normal(size=3))
    return plan


def rigid(plan):
    eng = RA.create_engine()
    P = eng.params
    P.resolution, P.envelope, P.K, P.bvh_chunk_size = 10, plan["env"], plan["K"], plan["chunk"]
    P.time_step, P.use_bounce, P.use_pre_stabilization, P.use_post_stabilization = plan["dt"], plan["bounce"], plan["pre"], plan["post"]
    P.max_iterations = 60
    RA.create_gravity_force(eng, "g", 9.8, np.array([0.0, 0, 1]))
    RA.create_damping_force(eng, "d", 0.3, 0.2)
    RA.create_surfaces_interaction(eng, "stone", "stone", plan["eps"], plan["mu"] * np.ones(3))
    if plan["floor"]:
        V, T = mg.box(6.0, 6.0, 1.0)
        RA.create_shape(eng, "floor", RA.create_mesh(V, T))
        RA.create_rigid_body(eng, "floor")
        RA.connect_shape(eng, "floor", "floor")
        RA.set_position(eng, "floor", np.array([0, 0, -0.5]))
        RA.set_body_type(eng, "floor", "fixed")
        RA.set_body_material(eng, "floor", "stone")
    for i in range(plan["n"]):
        nm = "b%d" % i
        shape = "s0" if plan["share"] else "s%d" % i
        if shape not in eng.shapes:
            V, T = mg.box(*(2 * plan["half"][i]))
            if plan["kind"][i] == "hull":
                V = np.array(V)
                V[-1] *= 1.1
            RA.create_shape(eng, shape, RA.create_mesh(V, T))
        RA.create_rigid_body(eng, nm)
        RA.connect_shape(eng, nm, shape)
        RA.set_mass_properties(eng, nm, plan["dens"][i])
        RA.set_position(eng, nm, plan["pose"][i][0], True)
        RA.set_orientation(eng, nm, plan["pose"][i][1], True)
        RA.set_velocity(eng, nm, plan["vel"][i][0])
        RA.set_spin(eng, nm, plan["vel"][i][1])
        RA.set_body_material(eng, nm, "stone")
        if plan["g"]:
            RA.connect_force(eng, nm, "g")
        if plan["damp"]:
            RA.connect_force(eng, nm, "d")
    if plan["hinge"]:
        RA.create_hinge(eng, "h")
        o = (eng.bodies["b0"].r + eng.bodies["b1"].r) / 2
        RA.set_hinge(eng, "h", "b0", "b1", o, plan["axis"][1] / np.linalg.norm(plan["axis"][1]), "world")
    return eng


def rigid_state(eng):
    return {n: [np.array(x) for x in (b.r, b.q, b.v, b.w)] for n, b in eng.bodies.items()}


def rigid_restore(eng, state):
    for n, (r, q, v, w) in state.items():
        RA.set_position(eng, n, r)
        RA.set_orientation(eng, n, q)
        RA.set_velocity(eng, n, v)
        RA.set_spin(eng, n, w)
        eng.bodies[n].q = np.array(q)             # set_orientation() normalises: undo the rounding


def rigid_contacts(eng):
    return [(c.bodyA.name, c.bodyB.name, np.array(c.p), np.array(c.n), float(c.g)) for c in eng.contact_points]


def rigid_change(d, plan):
    """a change of the world between two runs: a function to apply it to an engine"""
    k = d.int(0, 10 ** 6) * 7919 % 11
    n = plan["n"]
    nm = "b%d" % d.int(0, n - 1)
    u, x = np.array(d(unit())), d(num(0, 1))
    if k == 0:
        return "turned on the spot", lambda e: RA.set_orientation(e, nm, np.concatenate(([0.8], 0.6 * u)))
    if k == 1:
        return "moved", lambda e: RA.set_position(e, nm, RA.get_position(e, nm) + 0.05 * u)
    if k == 2:
        def f(e):
            if not e.surfaces_interactions.exist_material("ice"):
                RA.create_surfaces_interaction(e, "ice", "stone", 1 - x, 0.1 * x * np.ones(3))
            RA.set_body_material(e, nm, "ice")
        return "material", f
    if k == 3:
        def f(e):
            i = e.surfaces_interactions.get_interaction("stone", "stone")
            i.mu, i.epsilon = x * np.ones(3), 1 - x
        return "interaction", f
    if k == 4:
        return "mass", lambda e: RA.set_mass_properties(e, nm, 0.5 + 5 * x)
    if k == 5:
        kind = d.pick(["fixed", "free"])
        return "type", lambda e: RA.set_body_type(e, nm, kind)
    if k == 6:
        def f(e):
            e.forces["g"].g, e.forces["g"].up = 1 + 10 * x, np.array(u)
            e.forces["d"].alpha, e.forces["d"].beta = 0.1 + x, 1.1 - x
        return "forces", f
    if k == 7:
        def f(e):
            P = e.params
            P.use_bounce, P.use_pre_stabilization, P.use_post_stabilization = x > 0.5, u[0] > 0, u[1] > 0
            P.envelope, P.gap_reduction, P.min_gap_value = 0.01 + 0.05 * x, 0.3 + 0.5 * x, 0.01 * x
        return "parameters", f
    if k == 8:
        return "spin", lambda e: (RA.set_spin(e, nm, 3 * u), RA.set_velocity(e, nm, np.array([0.0, 0, 0])))
    if k == 9 and n > 1:
        def f(e):
            if "h" not in e.hinges:
                RA.create_hinge(e, "h")
            RA.set_hinge(e, "h", "b1", "b0", (e.bodies["b0"].r + e.bodies["b1"].r) / 2 + 0.1 * u, u, "world")
        return "hinge", f

    def g(e):
        V, T = mg.box(0.5, 0.6 + x, 0.7)
        RA.create_shape(e, "new", RA.create_mesh(V, T))
        RA.connect_shape(e, nm, "new")
    return "shape", g


# ---------------------------------------------------------------- soft bodies
def soft_plan(d):
    rng = np.random.RandomState(d.int(0, 99999))
    n = d.int(1, 3)
    plan = dict(n=n, rng=rng.randint(10 ** 6), mu=d(num(0, 1.2)), dt=d.pick([1e-4, 2e-4]), pre=False, post=d.bool(),
                hash=d.bool(), scheme=d.pick(["gauss_seidel", "parallel_jacobi", "parallel_jacboi_hybrid", "parallel_gauss_seidel"]), g=d.bool(),
                fix=d.pick(["none", "fixed", "dirichlet"]), load=d.int(0, 2) == 0, model=d.pick(["SVK", "COR", "SNH"]),
                c=d.pick([0.0, 5.0]), gap=d(num(-0.01, 0.005)), one=d.bool())
    return plan


def soft(plan):
    rng = np.random.RandomState(plan["rng"])
    eng = SA.create_engine()
    P = eng.params
    P.resolution, P.envelope, P.use_spatial_hashing, P.max_iterations = 10, 0.02, plan["hash"], 60
    P.time_step, P.use_pre_stabilization, P.use_post_stabilization = plan["dt"], plan["pre"], plan["post"]
    P.proximal_solver = plan["scheme"]
    y = 0.0
    for i in range(plan["n"]):
        nm, m = "b%d" % i, "m" if plan["one"] else "m%d" % i
        V, T = VM.create_beam(2, 2, 2, 2.0 - 0.5 * i, 0.6, 1.6 - 0.4 * i)
        if m not in eng.materials:
            SA.create_material(eng, m)
            SA.set_elasticity(eng, m, 1e4 * rng.uniform(0.5, 2), 0.3)
            SA.set_mass_density(eng, m, 1000 * rng.uniform(0.5, 2))
            SA.set_viscosity(eng, m, plan["c"])
            SA.set_constitutive_model(eng, m, getattr(ME, plan["model"]))
            for o in list(eng.materials):
                if o != "default":
                    SA.create_surfaces_interaction(eng, m, o, plan["mu"])
        SA.create_soft_body(eng, nm, V, T)
        SA.set_material(eng, nm, m)
        if plan["g"]:
            SA.set_gravity(eng, nm, np.array([0, -9.8, 0]))
        b = eng.bodies[nm]
        off = np.array([rng.uniform(-0.1, 0.1), y, rng.uniform(-0.1, 0.1)])
        SA.set_spatial_coordinates(eng, nm, b.x0 + off)
        SA.set_velocity(eng, nm, np.array([rng.uniform(-0.5, 0.5), -0.5 * i, 0]))
        y += 0.6 + plan["gap"]
    if plan["fix"] == "fixed":
        SA.set_type(eng, "b0", "fixed")
    if plan["fix"] == "dirichlet":
        SA.create_dirichlet_conditions(eng, "b0", lambda p: p[1] + 0.2)
    if plan["load"]:
        SA.create_traction_conditions(eng, "b%d" % (plan["n"] - 1), lambda p: 0.2 - p[1], np.array([30.0, -200, 10]))
    return eng


def soft_state(eng):
    return {n: [np.array(b.x), np.array(b.u)] for n, b in eng.bodies.items()}


def soft_restore(eng, state):
    for n, (x, u) in state.items():
        SA.set_spatial_coordinates(eng, n, x)
        eng.bodies[n].u[...] = u


def soft_contacts(eng):
    return [(c.bodyA.name, c.bodyB.name, np.array(c.p), np.array(c.n), float(c.g)) for c in eng.contact_points]


def soft_change(d, plan):
    k = d.int(0, 10 ** 6) * 7919 % 9
    nm = "b%d" % d.int(0, plan["n"] - 1)
    u, x = np.array(d(unit())), d(num(0, 1))
    if k == 0:
        return "moved", lambda e: SA.set_spatial_coordinates(e, nm, e.bodies[nm].x + 0.01 * u)
    if k == 1:
        def f(e):
            SA.create_material(e, "new")
            SA.set_elasticity(e, "new", 5e3 + 1e4 * x, 0.1 + 0.3 * x)
            SA.set_mass_density(e, "new", 500 + 1000 * x)
            SA.set_constitutive_model(e, "new", [ME.SVK, ME.COR, ME.SNH][int(2.9 * x)])
            for o in list(e.materials):
                if o != "default":
                    SA.create_surfaces_interaction(e, "new", o, x)
            SA.set_material(e, nm, "new")
        return "material", f
    if k == 2:
        def f(e):
            for i in e.surfaces_interactions.storage.values():
                i.mu = x * np.ones(3)
        return "interaction", f
    if k == 3:
        kind = d.pick(["fixed", "free"])
        return "type", lambda e: SA.set_type(e, nm, kind)
    if k == 4:
        return "gravity", lambda e: SA.set_gravity(e, nm, 10 * u)
    if k == 5:
        def f(e):
            P = e.params
            P.use_post_stabilization, P.envelope, P.gap_reduction = u[1] > 0, 0.01 + 0.03 * x, 0.3 + 0.5 * x
            P.proximal_solver = ["gauss_seidel", "parallel_jacobi", "parallel_jacboi_hybrid", "parallel_gauss_seidel"][int(3.9 * x)]
        return "parameters", f
    if k == 6:
        def f(e):
            e.bodies["b0"].dirichlet_conditions = []
            SA.create_dirichlet_conditions(e, "b0", lambda p: 0.2 - p @ u)
        return "conditions", f
    if k == 7:
        def f(e):
            e.bodies[nm].traction_conditions = []
            SA.create_traction_conditions(e, nm, lambda p: 0.1 - p @ u, 200 * u)
        return "loads", f
    return "velocity", lambda e: SA.set_velocity(e, nm, u)


SIMS = dict(rigid=(rigid_plan, rigid, rigid_state, rigid_restore, rigid_contacts, rigid_change, RA),
            soft=(soft_plan, soft, soft_state, soft_restore, soft_contacts, soft_change, SA))


def agree(a, b, what, tol=0.0, **kw):
    ensure(list(a) == list(b), what + ": bodies", got=list(a), want=list(b))
    for n in a:
        for k, (x, y) in enumerate(zip(a[n], b[n])):
            ensure(np.all(np.isfinite(x)), what + ": motion is not finite", body=n)
            close(x, y, atol=tol * (1 + np.abs(y).max()), msg="%s: %s of a body" % (what, "rqvw"[k] if len(a[n]) == 4 else "xu"[k]), body=n, **kw)


def same_contacts(a, b, what, tol=0.0):
    ensure([c[:2] for c in a] == [c[:2] for c in b], what + ": pairs in contact", got=[c[:2] for c in a], want=[c[:2] for c in b])
    for c, e in zip(a, b):
        for x, y, m in zip(c[2:], e[2:], ("position", "normal", "gap")):
            close(x, y, atol=tol, msg="%s: %s of a contact" % (what, m))


def judge(d, kind):
    make_plan, make, state, restore, contacts, change, A = SIMS[kind]
    plan = make_plan(d)
    n, m = d.int(1, 3), d.int(1, 3)
    ways = ["again", "interleaved", "profiled", "calls", "restart", "rewind", "changed", "changed", "changed"]
    how = ways[d.int(0, 10 ** 6) * 7919 % len(ways)]
    if how == "calls":
        plan["dt"] = 2.0 ** -7 if kind == "rigid" else 2.0 ** -13        # so that n*dt and dt+dt+... are the same number
    dt = plan["dt"]
    alter = []
    if how == "changed":
        alter = [change(d, plan) for _ in range(d.int(1, 2))]
        if len(alter) == 2 and alter[0][0] == alter[1][0]:
            alter.pop()
    for what, _ in alter:
        d.label(what)
    d.label(how)
    e1 = make(plan)
    A.simulate(e1, n * dt)
    mid, mid_contacts = state(e1), contacts(e1)
    for _, f in alter:
        f(e1)
    A.simulate(e1, m * dt)
    end, end_contacts = state(e1), contacts(e1)
    d.nontrivial(len(end_contacts) > 0 or len(mid_contacts) > 0)
    if how == "again":
        np.random.seed(d.int(0, 99)), random.seed(1)
        e2 = make(plan)
        A.simulate(e2, n * dt)
        agree(state(e2), mid, "same scene")
        A.simulate(e2, m * dt)
    elif how == "interleaved":
        other = make(make_plan(d))
        e2 = make(plan)
        e3 = make(plan)
        steps = [n, m]
        for k in steps:
            A.simulate(e2, k * dt)
            A.simulate(other, other.params.time_step)
            A.simulate(e3, k * dt)
        agree(state(e3), end, "beside another engine")
        same_contacts(contacts(e3), end_contacts, "beside another engine")
        agree(state(e1), end, "simulating another engine moved this one")
    elif how == "profiled":
        e2 = make(plan)
        A.simulate(e2, n * dt, True)
        A.simulate(e2, m * dt, True)
    elif how == "calls":
        e2 = make(plan)
        for _ in range(n + m):
            A.simulate(e2, dt)
    elif how in ("restart", "changed"):
        e2 = make(plan)
        restore(e2, mid)
        agree(state(e2), mid, "state put back", 1e-15)
        for _, f in alter:
            f(e2)
        A.simulate(e2, m * dt)
    else:
        # the engine itself is put back into its earlier state
        e2 = e1
        restore(e2, mid)
        agree(state(e2), mid, "state put back", 1e-15)
        A.simulate(e2, m * dt)
    agree(state(e2), end, "%s bodies, %s %s" % (kind, how, [w for w, _ in alter] or ""))
    same_contacts(contacts(e2), end_contacts, kind + " bodies, " + how)


@sub(quick=150)
def rigid_bodies(d):
    """heaps of rigid bodies: simulated again, beside another engine, with profiling, cut into other calls, continued by a fresh engine in the same state, rewound, or changed between two runs (against a fresh engine in the same state that was changed alike): motion and contacts are the same bit for bit; non-trivial if there are contacts"""
    judge(d, "rigid")


@sub(quick=120)
def soft_bodies(d):
    """stacks of soft bodies likewise; non-trivial if there are contacts"""
    judge(d, "soft")


def gather(d, kind, plan, eng):
    """puts one of the bodies somewhere beside or in another one, turned about its middle in any way"""
    names = list(eng.bodies)
    nm = names[d.int(0, 10 ** 6) * 7919 % len(names)]
    to = names[d.int(0, 10 ** 6) * 31337 % len(names)]
    how = ["turn", "turn", "move", "both", "stay"][d.int(0, 10 ** 6) * 7919 % 5]
    d.label(how)
    u, q = np.array(d(unit())), np.array(d(quat_generic()))
    b, o = eng.bodies[nm], eng.bodies[to]
    x = d(num(0.3, 1.0))
    if kind == "rigid":
        if how in ("move", "both"):
            RA.set_position(eng, nm, o.r + x * u)
        if how in ("turn", "both"):
            RA.set_orientation(eng, nm, q)
        return
    c = b.x.mean(axis=0)
    y = b.x - c
    if how in ("turn", "both"):
        y = y @ ref_matrix(q).T
    if how in ("move", "both"):
        c = o.x.mean(axis=0) + x * u
    SA.set_spatial_coordinates(eng, nm, c + y)


def detect(kind, eng):
    if kind == "rigid":
        RCD.run_collision_detection(eng, {}, False)
    else:
        SCD.run_collision_detection(eng, {}, False)
        eng.params.time_stamp += 1                # as a time step does: what the hash grid holds belongs to one time stamp


def detection(d, kind):
    make_plan, make, state, restore, contacts, change, A = SIMS[kind]
    plan = make_plan(d)
    if plan["n"] == 1 and not plan.get("floor"):
        plan["n"] = 2
        if kind == "rigid":
            for k in ("half", "pose", "vel", "kind", "dens"):
                plan[k] = plan[k] * 2
    eng = make(plan)
    for _ in range(2):
        gather(d, kind, plan, eng)
    counts = set()
    for _ in range(d.int(2, 4)):
        detect(kind, eng)
        gather(d, kind, plan, eng)
        now = state(eng)
        if d.bool():
            detect(kind, eng)                     # twice in the same place
        detect(kind, eng)
        agree(state(eng), now, kind + " bodies: collision detection moved a body")
        fresh = make(plan)
        restore(fresh, now)
        detect(kind, fresh)
        same_contacts(contacts(eng), contacts(fresh), kind + " bodies, detected again after a move")
        counts.add(len(eng.contact_points))
    d.nontrivial(len(counts) > 1)


@sub(quick=120)
def rigid_detection(d):
    """collision detection repeated while bodies are turned on the spot, moved or left where they are: the contacts are those a fresh engine finds in the same state; non-trivial if the number of contacts changes"""
    detection(d, "rigid")


@sub(quick=120)
def soft_detection(d):
    """soft bodies likewise; non-trivial if the number of contacts changes"""
    detection(d, "soft")


if __name__ == "__main__":
    sys.exit(main("C46", []))
