"""C24: simulated motion of non-touching bodies follows the stated time-stepping scheme for the whole requested time."""
from pbt import *
import meshgen as mg
import rainbow.simulators.prox_rigid_bodies.api as API

_shape = {}


def world(d, n, spread=50.0, fixed=True, forces=True):
    """n bodies (boxes) far apart"""
    eng = API.create_engine()
    eng.params.resolution = 3
    a, b, c = d(pos(0.5, 2)), d(pos(0.5, 2)), d(pos(0.5, 2))
    V, F = mg.box(a, b, c)
    API.create_shape(eng, "s", API.create_mesh(V, F))
    g, up = d(pos(0.5, 20)), d(unit())
    al, be = d(pos(0.01, 2)) * d.pick([1.0, 1.0, 15.0]), d(pos(0.01, 2))
    API.create_gravity_force(eng, "g", g, up)
    API.create_damping_force(eng, "d", al, be)
    ref = []
    for i in range(n):
        nm = f"b{i}"
        API.create_rigid_body(eng, nm)
        API.connect_shape(eng, nm, "s")
        API.set_mass_properties(eng, nm, d(pos(0.5, 5)))
        API.set_position(eng, nm, np.array([spread * i, 0.0, 0.0]) + d(vec(3, -2, 2)))
        API.set_orientation(eng, nm, d(quat()))
        API.set_velocity(eng, nm, np.zeros(3) if d.int(0, 2) == 0 else d(vec(3, -3, 3)))
        API.set_spin(eng, nm, np.zeros(3) if d.int(0, 4) == 0 else d.pick([1.0, 1.0, 0.01]) * d(vec(3, -3, 3)))
        fx = fixed and d.int(0, 3) == 0
        API.set_body_type(eng, nm, "fixed" if fx else "free")
        hg, hd = forces and d.bool(), forces and d.bool()
        if hg:
            API.connect_force(eng, nm, "g")
        if hd:
            API.connect_force(eng, nm, "d")
        bd = eng.bodies[nm]
        ref.append(dict(name=nm, m=bd.mass, I=np.array(bd.inertia), r=np.array(bd.r), q=np.array(bd.q), v=np.array(bd.v), w=np.array(bd.w),
                        fixed=fx, acc=-g * up if hg else np.zeros(3), al=al if hd else 0.0, be=be if hd else 0.0))
    return eng, ref


def advance(b, dt):
    """one semi-implicit Euler step of a free rigid body, written from the equations of motion"""
    if b["fixed"]:
        return
    R = ref_matrix(b["q"])
    I = R @ np.diag(b["I"]) @ R.T
    v = b["v"] + dt * (b["acc"] - b["al"] * b["v"] / b["m"])
    w = b["w"] + dt * np.linalg.solve(I, -np.cross(b["w"], I @ b["w"]) - b["be"] * b["w"])
    b["v"], b["w"] = v, w
    b["r"] = b["r"] + dt * v
    q = b["q"] + 0.5 * dt * ref_qmul(np.concatenate([[0.0], w]), b["q"])
    b["q"] = q / np.linalg.norm(q)


@sub(quick=60)
def free_flight(d):
    """whole simulations of bodies far apart (gravity, damping, spin, fixed bodies) against a reference integrator; non-trivial if a free body spins"""
    eng, ref = world(d, d.size(1, 4, 15))
    h = d.pick([0.01, 0.02, 0.005, 0.0125])
    eng.params.time_step = h
    n = d.int(1, 12)
    part = d.pick([0.0, 0.0, 0.5, 0.25])
    T = n * h + part * h
    API.simulate(eng, T, d.bool())
    for k in range(n):
        for b in ref:
            advance(b, h)
    if part:
        for b in ref:
            advance(b, part * h)
    for b in ref:
        x = eng.bodies[b["name"]]
        tol = 0.0 if b["fixed"] else 1e-8
        close(x.r, b["r"], atol=tol, rtol=0, msg="position of " + ("fixed" if b["fixed"] else "free") + " body")
        close(x.q, b["q"], atol=tol, rtol=0, msg="orientation")
        close(x.v, b["v"], atol=tol, rtol=0, msg="velocity")
        close(x.w, b["w"], atol=tol, rtol=0, msg="spin")
    ensure(len(eng.contact_points) == 0, "bodies 40 units apart are in contact")
    d.nontrivial(any(not b["fixed"] and np.linalg.norm(b["w"]) > 0.1 for b in ref))


@sub(quick=50)
def changes_between_runs(d):
    """masses, shapes, types, poses, velocities, forces and their strength change and bodies are added between runs; the motion is that of the reference integrator started from the present state; non-trivial with two or more changes"""
    eng, ref = world(d, d.int(1, 2))
    g, da = eng.forces["g"], eng.forces["d"]
    API.create_gravity_force(eng, "g2", d(pos(0.5, 20)), d(unit()))
    g2 = eng.forces["g2"]
    changes = 0
    for run in range(d.int(2, 4)):
        for k in range(d.int(0, 3)):
            names = list(eng.bodies)
            n = d.pick(names)
            i = names.index(n)
            what = d.pick(["mass", "shape", "type", "position", "orientation", "velocity", "spin", "connect", "g", "up", "damping", "add", "disconnect"])
            if what == "mass":
                API.set_mass_properties(eng, n, d(pos(0.5, 5)))
            elif what == "shape":
                s = f"s{len(eng.shapes)}"
                V, F = mg.box(d(pos(0.5, 2)), d(pos(0.5, 2)), d(pos(0.5, 2)))
                API.create_shape(eng, s, API.create_mesh(V, F))
                API.connect_shape(eng, n, s)
                API.set_mass_properties(eng, n, d(pos(0.5, 5)))
            elif what == "type":
                API.set_body_type(eng, n, d.pick(["fixed", "free"]))
            elif what == "position":
                API.set_position(eng, n, np.array([50.0 * i, 0.0, 0.0]) + d(vec(3, -2, 2)))
            elif what == "orientation":
                API.set_orientation(eng, n, d(quat()))
            elif what == "velocity":
                API.set_velocity(eng, n, d(vec(3, -3, 3)))
            elif what == "spin":
                API.set_spin(eng, n, d(vec(3, -3, 3)))
            elif what == "connect":
                for f in "g", "d", "g2":
                    if d.bool() and eng.forces[f] not in eng.bodies[n].forces:
                        API.connect_force(eng, n, f)
            elif what == "disconnect":
                eng.bodies[n].forces = eng.bodies[n].forces[1:]
            elif what == "g":
                g.g = d(pos(0.5, 20))
            elif what == "up":
                d.pick([g, g2]).up = np.array(d(unit()))
            elif what == "damping":
                da.alpha, da.beta = d(pos(0.01, 2)), d(pos(0.01, 2))
            else:
                nm = f"b{len(names)}"
                API.create_rigid_body(eng, nm)
                API.connect_shape(eng, nm, d.pick(list(eng.shapes)))
                API.set_mass_properties(eng, nm, d(pos(0.5, 5)))
                API.set_position(eng, nm, np.array([50.0 * len(names), 0.0, 0.0]))
                API.set_spin(eng, nm, d(vec(3, -3, 3)))
                if d.bool():
                    API.connect_force(eng, nm, "g")
            d.label(what)
            changes += 1
        ref = []
        for nm, b in eng.bodies.items():
            acc = sum((-f.g * np.array(f.up) for f in (g, g2) if f in b.forces), np.zeros(3))
            damp = da in b.forces
            ref.append(dict(name=nm, m=b.mass, I=np.array(b.inertia), r=np.array(b.r), q=np.array(b.q), v=np.array(b.v), w=np.array(b.w), fixed=b.is_fixed,
                            acc=acc, al=da.alpha if damp else 0.0, be=da.beta if damp else 0.0))
        h = eng.params.time_step = d.pick([0.01, 0.02, 0.005])
        n = d.int(1, 4)
        API.simulate(eng, n * h, d.bool())
        for k in range(n):
            for b in ref:
                advance(b, h)
        for b in ref:
            x = eng.bodies[b["name"]]
            tol = 0.0 if b["fixed"] else 1e-8
            close(x.r, b["r"], atol=tol, rtol=0, msg="position in run %d" % run)
            close(x.q, b["q"], atol=tol, rtol=0, msg="orientation in run %d" % run)
            close(x.v, b["v"], atol=tol, rtol=0, msg="velocity in run %d" % run)
            close(x.w, b["w"], atol=tol, rtol=0, msg="spin in run %d" % run)
    d.nontrivial(changes >= 2)


@sub(quick=150)
def time_is_partitioned(d):
    """simulate(T) takes ceil(T/h) steps of at most h that add up to T, also when T and h are decimal fractions; non-trivial if more than one step is taken"""
    eng = API.create_engine()
    calls = []

    class Spy:
        log = []

        def step(self, dt, e, profiling_on):
            ensure(e is eng, "another engine was stepped")
            calls.append(dt)
    eng.stepper = Spy()
    h = d.pick([0.01, 0.001, 0.02, 0.1, 0.005, 1 / 60, 0.3, 0.25])
    if d.bool():
        T = d.int(1, 60) * h * d.pick([1.0, 0.1, 0.5, 0.75])
    else:
        T = round(d(pos(0.001, 1.0)), d.int(2, 6)) or h
        if T / h > 2000:
            T = T / 10
    eng.params.time_step = h
    API.simulate(eng, T)
    n = int(np.ceil(T / h - 1e-9))
    d.nontrivial(n > 1)
    close(sum(calls), T, atol=1e-9 * T, rtol=0, msg="steps do not add up to the requested time")
    ensure(len(calls) == n, f"{len(calls)} steps were taken for T={T!r}, h={h!r} (expected {n})", last=calls[-1])
    ensure(all(0 < x <= h * (1 + 1e-9) for x in calls), "a step is larger than the time step or not positive", steps=calls)
    ensure(all(abs(x - h) < 1e-9 * h for x in calls[:-1]), "a step before the last one is not the full time step", steps=calls)


@sub(quick=25)
def split_simulation(d):
    """simulating T1 then T2 (whole steps) gives the state of simulating T1+T2 in one go, bit by bit; non-trivial if both parts have steps"""
    eng, ref = world(d, d.int(1, 3))
    import copy
    other = copy.deepcopy(eng)
    h = 0.0078125
    eng.params.time_step = other.params.time_step = h
    a, b = d.int(1, 6), d.int(1, 6)
    API.simulate(eng, (a + b) * h)
    API.simulate(other, a * h)
    API.simulate(other, b * h)
    for n in eng.bodies:
        x, y = eng.bodies[n], other.bodies[n]
        for k in "rqvw":
            close(getattr(x, k), getattr(y, k), atol=0, rtol=0, msg=f"{k} depends on how the time is split")


@sub(quick=25)
def log_of_a_run(d):
    """the log has one entry per profiled step with its dt and the energies of the resulting state; nothing is logged when profiling is off"""
    eng, ref = world(d, d.int(1, 3), forces=False)
    for n in eng.bodies:
        API.connect_force(eng, n, "g")
    h = 0.0078125
    eng.params.time_step = h
    ensure(API.get_log(eng) == [], "log of a fresh engine")
    API.simulate(eng, 2 * h)
    ensure(API.get_log(eng) == [], "log although profiling is off")
    k = d.int(1, 4)
    g = eng.forces["g"]
    for j in range(k):
        API.simulate(eng, h, True)
        e = API.get_log(eng)
        ensure(len(e) == j + 1, "one log entry per step expected", n=len(e))
        kin = pot = 0.0
        for b in ref:
            x = eng.bodies[b["name"]]
            if b["fixed"]:
                continue
            R = ref_matrix(x.q)
            kin += 0.5 * x.mass * x.v @ x.v + 0.5 * x.w @ (R @ np.diag(x.inertia) @ R.T) @ x.w
            pot += x.mass * g.g * g.up @ x.r
        close(e[-1]["dt"], h, atol=1e-12, msg="logged dt")
        close(e[-1]["kinetic_energy"], kin, atol=1e-8, msg="logged kinetic energy")
        close(e[-1]["potential_energy"], pot, atol=1e-7, msg="logged potential energy")
        ensure(e[-1]["contact_points"] == 0, "logged contacts")
        close(e[-1]["max_penetration"], 0.0, atol=0, msg="logged penetration without contacts")
    T = h * d(pos(0.1, 3.9))
    API.simulate(eng, T, True)
    e = API.get_log(eng)[k:]
    n = int(np.ceil(T / h - 1e-9))
    ensure(len(e) == n, "number of log entries of a run", got=len(e), want=n)
    close([x["dt"] for x in e], [h] * (n - 1) + [T - (n - 1) * h], atol=1e-9, msg="logged dt of a run with a shorter last step")


@sub(quick=25)
def log_with_contacts(d):
    """profiled runs of bodies that touch: each log entry tells the number of contacts, the deepest penetration and the energies after its step; non-trivial if a step has a penetrating contact"""
    eng, ref = world(d, d.int(2, 4), spread=d.pick([0.6, 0.9, 1.4]), fixed=True, forces=False)
    for n in eng.bodies:
        API.set_position(eng, n, 0.4 * eng.bodies[n].r)
        API.connect_force(eng, n, "g")
    h = 0.0078125
    eng.params.time_step = h
    eng.params.use_post_stabilization = d.bool()
    deep = False
    g = eng.forces["g"]
    for j in range(d.int(1, 3)):
        API.simulate(eng, h, True)
        e = API.get_log(eng)
        ensure(len(e) == j + 1, "one log entry per step expected", n=len(e))
        gaps = [c.g for c in eng.contact_points]
        ensure(e[-1]["contact_points"] == len(gaps), "logged number of contacts", got=e[-1]["contact_points"], want=len(gaps))
        close(e[-1]["max_penetration"], max([0.0] + [-x for x in gaps]), atol=0, msg="logged penetration")
        free = [x for x in eng.bodies.values() if not x.is_fixed]
        kin = sum(0.5 * x.mass * x.v @ x.v + 0.5 * x.w @ (ref_matrix(x.q) @ (x.inertia * (ref_matrix(x.q).T @ x.w))) for x in free)
        pot = sum(x.mass * g.g * g.up @ x.r for x in free)
        close(e[-1]["kinetic_energy"], kin, atol=1e-8, rtol=1e-8, msg="logged kinetic energy")
        close(e[-1]["potential_energy"], pot, atol=1e-7, rtol=1e-8, msg="logged potential energy")
        deep = deep or any(x < 0 for x in gaps)
    d.nontrivial(deep)


@sub(quick=60)
def bad_requests(d):
    """times that are not positive and missing steppers are refused without changing anything"""
    eng, ref = world(d, 1)
    before = [np.array(getattr(eng.bodies["b0"], k)) for k in "rqvw"]
    T = -d(pos(0.001, 10)) if d.bool() else 0.0
    if d.bool():
        eng.stepper, T = None, 0.01
    try:
        API.simulate(eng, T)
    except ValueError:
        for k, x in zip("rqvw", before):
            close(getattr(eng.bodies["b0"], k), x, atol=0, rtol=0, msg="refused simulation changed the state")
        return
    fail(f"simulate(T={T}) with stepper {eng.stepper} was accepted")


if __name__ == "__main__":
    sys.exit(main("C24", ["At most 4 bodies; free-flight runs of at most 13 steps."]))
