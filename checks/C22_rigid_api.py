"""C22: the rigid-body scene API behaves as a registry: unique names, all-or-nothing refusals, isolated stored values."""
from pbt import *
import copy
import meshgen as mg
import rainbow.simulators.prox_rigid_bodies.api as API
import rainbow.simulators.prox_rigid_bodies.types as RT
import rainbow.math.quaternion as Q

NAMES = ["a", "b", "Zulu", "default", "x y"]
MATS = ["default", "wood", "ice", "Steel"]


class Model:
    def __init__(self):
        self.bodies, self.forces, self.hinges, self.shapes = {}, {}, {}, {}
        self.inter = {("default", "default"): (0.0, [1.0, 1.0, 1.0])}


def snapshot(eng):
    """everything observable of the engine through names"""
    s = {}
    for n, b in eng.bodies.items():
        s["b", n] = (b.name, b.idx, tuple(b.q), tuple(b.r), tuple(b.v), tuple(b.w), b.mass, tuple(np.ravel(b.inertia)),
                     None if b.shape is None else b.shape.name, bool(b.is_fixed), tuple(f.name for f in b.forces), b.material)
    for n, f in eng.forces.items():
        s["f", n] = (f.name, f.force_type) + ((f.g, tuple(f.up)) if f.force_type == "Gravity" else (f.alpha, f.beta))
    for n, h in eng.hinges.items():
        s["h", n] = (h.name, h.idx, h.parent and h.parent.name, h.child and h.child.name)
    for n, h in eng.shapes.items():
        s["s", n] = (h.name, h.mass)
    for k, i in eng.surfaces_interactions.storage.items():
        s["i", k] = (i.epsilon, tuple(i.mu))
    return s


def same(a, b, tol=1e-12):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        return a is not None and b is not None and abs(a - b) <= tol * (1 + abs(a))
    return a == b


OPS = ["body", "body", "body", "hinge", "shape", "gravity", "damping", "pos", "rot", "vel", "spin", "connect_shape", "connect_force", "connect_force",
       "mass", "type", "material", "interaction", "interaction", "set_hinge", "get"]


@sub(quick=400)
def registry_model(d):
    """operation sequences on engines against a dictionary model, refused calls change nothing, arguments and results are not aliased; non-trivial if at least one call is refused and five succeed"""
    eng = API.create_engine()
    eng.params.resolution = 4
    m = Model()
    good = bad = 0
    fresh = RT.RigidBody("x")
    nops = d.size(5, 24, 80, 10)
    for step in range(nops):
        again = step > 4 and d.int(0, 3) == 3         # the same call on the same object once more, with other values
        if not again:
            op = d.pick(OPS) if step > 3 else ["body", "shape", "body", "gravity"][step]
        known = dict(connect_shape=m.shapes, connect_force=m.forces, set_hinge=m.bodies).get(op, {})
        if not again:
            n = d.pick(NAMES + list(m.bodies) * (3 if op not in ("body", "hinge", "shape", "gravity", "damping", "interaction") else 0))
        other = d.pick(NAMES + list(known) * 3)
        before = snapshot(eng)
        mutate = []                                  # arrays handed in: changing them afterwards must not matter
        if op == "body":
            ok = n not in m.bodies
            call = lambda: API.create_rigid_body(eng, n)
            new = dict(idx=len(m.bodies), q=(1.0, 0.0, 0.0, 0.0), r=(0.0,) * 3, v=(0.0,) * 3, w=(0.0,) * 3, mass=0.0, inertia=(0.0,) * 3,
                       shape=None, fixed=False, forces=(), mat="default")
            eff = lambda: m.bodies.__setitem__(n, new)
        elif op == "hinge":
            ok = n not in m.hinges
            call = lambda: API.create_hinge(eng, n)
            eff = lambda: m.hinges.__setitem__(n, [len(m.hinges), None, None])
        elif op == "shape":
            ok = n not in m.shapes
            a, b, c = d(pos(0.5, 2)), d(pos(0.5, 2)), d(pos(0.5, 2))
            V, T = mg.box(a, b, c)
            mesh = API.create_mesh(V, T)
            call = lambda: API.create_shape(eng, n, mesh)
            I = sorted([a * b * c / 12 * (x * x + y * y) for x, y in ((a, b), (b, c), (a, c))], reverse=True)
            eff = lambda: m.shapes.__setitem__(n, (a * b * c, I))
        elif op == "gravity":
            g = d(st.sampled_from([9.81, 1.0, 0.0, -3.0, 100.0]))
            up = d(unit()) * d(pos(0.2, 5))
            ok = n not in m.forces and g > 0
            mutate = [up]
            u = tuple(up / np.linalg.norm(up))
            call = lambda: API.create_gravity_force(eng, n, g, up)
            eff = lambda: m.forces.__setitem__(n, ("Gravity", g, u))
        elif op == "damping":
            al, be = d(st.sampled_from([0.1, 2.0, 0.0, -1.0])), d(st.sampled_from([0.1, 3.0, 0.0, -1.0]))
            ok = n not in m.forces and al > 0 and be > 0
            call = lambda: API.create_damping_force(eng, n, al, be)
            eff = lambda: m.forces.__setitem__(n, ("Damping", al, be))
        elif op in ("pos", "vel", "spin"):
            v = d(vec(3, -5, 5))
            mutate = [v]
            ok = n in m.bodies
            key = dict(pos="r", vel="v", spin="w")[op]
            f = dict(pos=API.set_position, vel=API.set_velocity, spin=API.set_spin)[op]
            call = lambda: f(eng, n, v)
            vv = tuple(v)
            eff = lambda: m.bodies[n].__setitem__(key, vv)
        elif op == "rot":
            q = d(quat()) * d(pos(0.3, 3))
            mutate = [q]
            ok = n in m.bodies
            call = lambda: API.set_orientation(eng, n, q)
            qq = tuple(q / np.linalg.norm(q))
            eff = lambda: m.bodies[n].__setitem__("q", qq)
        elif op == "connect_shape":
            ok = n in m.bodies and other in m.shapes
            call = lambda: API.connect_shape(eng, n, other)
            eff = lambda: m.bodies[n].__setitem__("shape", other)
        elif op == "connect_force":
            ok = n in m.bodies and other in m.forces and other not in m.bodies[n]["forces"]
            call = lambda: API.connect_force(eng, n, other)
            eff = lambda: m.bodies[n].__setitem__("forces", m.bodies[n]["forces"] + (other,))
        elif op == "mass":
            rho = d(pos(0.1, 100))
            ok = n in m.bodies and m.bodies[n]["shape"] is not None
            call = lambda: API.set_mass_properties(eng, n, rho)

            def eff():
                M_, I_ = m.shapes[m.bodies[n]["shape"]]
                m.bodies[n]["mass"] = M_ * rho
                m.bodies[n]["inertia"] = tuple(rho * x for x in I_)
        elif op == "type":
            t = d.pick(["fixed", "Fixed", "FIXED", "free", "Free", "FREE", "frozen", ""])
            ok = n in m.bodies and t.lower() in ("fixed", "free")
            call = lambda: API.set_body_type(eng, n, t)
            eff = lambda: m.bodies[n].__setitem__("fixed", t.lower() == "fixed")
        elif op == "material":
            t = d.pick(MATS)
            if d.int(0, 3) == 0:                                   # a name similar to a known one
                t = d.pick([t[:-1], t[1:], t.upper(), t + "x", t + ",", " " + t])
            ok = n in m.bodies and any(t in k for k in m.inter)
            call = lambda: API.set_body_material(eng, n, t)
            eff = lambda: m.bodies[n].__setitem__("mat", t)
        elif op == "interaction":
            A, B = d.pick(MATS), d.pick(MATS)
            e = d(st.sampled_from([0.0, 0.5, 1.0, 1.5, -0.1]))
            mu = [d(st.sampled_from([0.0, 0.3, 1.0, 2.0, 0.7, -0.5])) for _ in range(3)]
            mua = np.array(mu)
            mutate = [mua]
            key = tuple(sorted((A, B)))
            ok = key not in m.inter and e >= 0 and min(mu) >= 0
            call = lambda: API.create_surfaces_interaction(eng, A, B, e, mua)
            eff = lambda: m.inter.__setitem__(key, (e, mu))
        elif op == "set_hinge":
            h, p, c = d.pick(NAMES + list(m.hinges) * 3), n, other
            ok = h in m.hinges and p in m.bodies and c in m.bodies
            o, s = d(vec(3, -2, 2)), d(unit())
            mode = d.pick(["world", "body", "world", "bogus"])
            want = ValueError if ok and mode == "bogus" else None
            ok = ok and mode != "bogus"
            call = lambda: API.set_hinge(eng, h, p, c, o, s, mode)

            def eff():
                m.hinges[h][1:] = [p, c]
        else:
            ok = n in m.bodies
            got = []
            call = lambda: got.extend([API.get_position(eng, n), API.get_orientation(eng, n), API.get_velocity(eng, n), API.get_spin(eng, n), API.is_fixed_body(eng, n)])

            def eff():
                b = m.bodies[n]
                for val, k in zip(got, "rqvw"):
                    close(val, b[k], atol=1e-12, msg=f"getter of {k}")
                    val += 17.0                       # results must be copies
                ensure(got[4] == b["fixed"], "is_fixed_body")
        d.label(op + ("+" if ok else "-"))
        try:
            call()
            raised = None
        except Exception as ex:
            raised = ex
        if ok:
            good += 1
            ensure(raised is None, f"{op} refused although it is valid: {raised!r}")
            eff()
            for x in mutate:
                x[:] = 99.0
        else:
            bad += 1
            ensure(raised is not None, f"{op} accepted although it must be refused", name=n, other=other)
            ensure(isinstance(raised, (RuntimeError, ValueError)), f"{op} raised {raised!r} instead of a clear refusal")
            ensure(snapshot(eng) == before, f"refused {op} changed the engine")
        # ------------------------------------------------------------------------------------- compare with the model
        want = {}
        for k, b in m.bodies.items():
            want["b", k] = (k, b["idx"], b["q"], b["r"], b["v"], b["w"], b["mass"], b["inertia"], b["shape"], b["fixed"], b["forces"], b["mat"])
        for k, f in m.forces.items():
            want["f", k] = (k,) + f
        for k, h in m.hinges.items():
            want["h", k] = (k, h[0], h[1], h[2])
        for k, s in m.shapes.items():
            want["s", k] = (k, s[0])
        for k, i in m.inter.items():
            want["i", k] = (i[0], tuple(i[1]))
        have = snapshot(eng)
        ensure(set(have) == set(want), f"after {op}: registered names differ", have=sorted(map(str, have)), want=sorted(map(str, want)))
        for k in want:
            ensure(same(have[k], want[k], 1e-6), f"after {op}: entry {k} differs", have=have[k], want=want[k])
        for A in MATS:
            for B in MATS:
                i = eng.surfaces_interactions.get_interaction(A, B)
                w = m.inter.get(tuple(sorted((A, B))), m.inter["default", "default"])
                ensure(i.epsilon == w[0] and list(i.mu) == list(w[1]), f"after {op}: interaction of {A} and {B}", have=(i.epsilon, i.mu), want=w)
                ensure(bool(eng.surfaces_interactions.exist_interaction(A, B)) == (tuple(sorted((A, B))) in m.inter), f"after {op}: exist_interaction of {A} and {B}")
            ensure(bool(eng.surfaces_interactions.exist_material(A)) == any(A in k for k in m.inter), f"after {op}: exist_material of {A}")
    d.nontrivial(bad >= 1 and good >= 5)


@sub(quick=80)
def one_bad_field(d):
    """surface interactions and forces with exactly one field out of range are refused whatever the other fields are (zero, too), otherwise stored as given; non-trivial if refused"""
    eng = API.create_engine()
    val = lambda: d.pick([0.0, 1e-9, 0.3, 1.0, 5.0, 1e6])
    bad = d.int(-1, 3)
    d.nontrivial(bad >= 0)
    x = [val() for _ in range(4)]
    if bad >= 0:
        x[bad] = -d.pick([1e-9, 0.1, 1.0, 1e6])
    before = snapshot(eng)
    raised = None
    try:
        API.create_surfaces_interaction(eng, "wood", "ice", x[0], np.array(x[1:]))
    except (ValueError, RuntimeError) as e:
        raised = e
    if bad >= 0:
        ensure(raised is not None, "interaction with a negative field was accepted", epsilon=x[0], mu=x[1:])
        ensure(snapshot(eng) == before, "refused interaction changed the engine")
    else:
        ensure(raised is None, f"interaction refused although it is valid: {raised!r}", epsilon=x[0], mu=x[1:])
        i = eng.surfaces_interactions.get_interaction("ice", "wood")
        ensure(i.epsilon == x[0] and list(i.mu) == x[1:], "stored interaction differs", epsilon=i.epsilon, mu=i.mu, want=x)
    pv = lambda: d.pick([1e-9, 0.3, 1.0, 1e6])
    y = [pv(), pv()]
    b2 = d.int(-1, 1)
    if b2 >= 0:
        y[b2] = d.pick([0.0, -1e-9, -1.0, -1e6])
    before, raised = snapshot(eng), None
    try:
        API.create_damping_force(eng, "d", *y)
    except (ValueError, RuntimeError) as e:
        raised = e
    ensure((raised is None) == (b2 < 0), f"damping with alpha, beta = {y}: {raised!r}")
    if b2 >= 0:
        ensure(snapshot(eng) == before, "refused damping changed the engine")
    else:
        ensure([eng.forces["d"].alpha, eng.forces["d"].beta] == y, "stored damping differs")


@sub(quick=120)
def setters_commute(d):
    """a body gets the same attributes whatever the order in which they are set (also twice), and each setter leaves the attributes of other setters alone; non-trivial with five setters"""
    eng = API.create_engine()
    eng.params.resolution = 3
    V, T = mg.box(d(pos(0.5, 2)), d(pos(0.5, 2)), d(pos(0.5, 2)))
    API.create_shape(eng, "s", API.create_mesh(V, T))
    API.create_gravity_force(eng, "g", 9.8, np.array([0, 1.0, 0]))
    API.create_surfaces_interaction(eng, "wood", "ice", 0.5, np.ones(3))
    r, q, v, w, rho = d(vec(3, -5, 5)), d(quat()), d(vec(3, -5, 5)), d(vec(3, -5, 5)), d(pos(0.1, 100))
    calls = dict(pos=(lambda n: API.set_position(eng, n, r), {"r"}), rot=(lambda n: API.set_orientation(eng, n, q), {"q"}),
                 vel=(lambda n: API.set_velocity(eng, n, v), {"v"}), spin=(lambda n: API.set_spin(eng, n, w), {"w"}),
                 mass=(lambda n: API.set_mass_properties(eng, n, rho), {"mass", "inertia"}), mat=(lambda n: API.set_body_material(eng, n, "wood"), {"material"}),
                 force=(lambda n: API.connect_force(eng, n, "g"), {"forces"}))
    t = d.pick(["fixed", "free"])
    calls["type"] = (lambda n: API.set_body_type(eng, n, t), {"is_fixed"} | ({"v", "w"} if t == "fixed" else set()))
    use = [k for k in calls if d.int(0, 3) > 0]
    d.nontrivial(len(use) >= 5)
    attr = lambda b: dict(r=tuple(b.r), q=tuple(b.q), v=tuple(b.v), w=tuple(b.w), mass=b.mass, inertia=tuple(np.ravel(b.inertia)), material=b.material,
                          forces=tuple(f.name for f in b.forces), is_fixed=b.is_fixed, shape=b.shape.name, name=b.name, idx=b.idx)
    end = []
    for n in ("a", "b"):
        API.create_rigid_body(eng, n)
        API.connect_shape(eng, n, "s")
        order = list(np.random.RandomState(d.int(0, 9999)).permutation(use)) if use else []
        if order and d.bool():
            k = d.pick(order)
            if k != "force":
                order.append(k)
        for k in order:
            x = attr(eng.bodies[n])
            calls[k][0](n)
            y = attr(eng.bodies[n])
            changed = {a for a in x if x[a] != y[a]}
            ensure(changed <= calls[k][1], f"setting {k} changed other attributes of the body", changed=changed - calls[k][1])
        x = attr(eng.bodies[n])
        del x["name"], x["idx"]
        end.append(x)
    skip = {"v", "w"} if t == "fixed" and "type" in use else set()
    for a in end[0]:
        if a not in skip:
            ensure(end[0][a] == end[1][a], f"{a} of a body depends on the order in which its attributes are set", first=end[0][a], second=end[1][a], setters=use)


@sub(quick=60)
def unique_names(d):
    """generated names are pairwise different, keep their prefix and are valid USD identifiers"""
    base = d(st.text(alphabet="abcXYZ_ .:-09", min_size=1, max_size=8))
    base = "n" + base
    names = [API.generate_unique_name(base) for _ in range(d.int(2, 30))]
    ensure(len(set(names)) == len(names), "generated names repeat", names=names)
    pre = base
    for c in " .:-":
        pre = pre.replace(c, "_")
    for n in names:
        ensure(n.startswith(pre), "prefix lost", name=n)
        ensure(n.isidentifier(), "not a valid identifier", name=n)


@sub(quick=80)
def engines_are_independent(d):
    """what is done to one engine is invisible in another one and in freshly created ones (bodies, parameters, default vectors, materials)"""
    e1, e2 = API.create_engine(), API.create_engine()
    API.create_rigid_body(e1, "p")
    API.create_rigid_body(e2, "p")
    before = snapshot(e2)
    API.set_position(e1, "p", d(vec(3, 1, 5)))
    API.set_orientation(e1, "p", d(quat()))
    e1.bodies["p"].v += 1.0
    e1.bodies["p"].w += 1.0
    e1.bodies["p"].r += 1.0
    e1.bodies["p"].q += 1.0
    e1.surfaces_interactions.storage["default", "default"].mu[0] = d(pos(2, 5))
    API.create_surfaces_interaction(e1, "wood", "ice", 0.5, np.ones(3))
    API.create_gravity_force(e1, "g", 9.8, np.array([0, 1.0, 0]))
    e1.forces["g"].up += 1.0
    API.connect_force(e1, "p", "g")
    e1.params.time_step = 77.0
    ensure(snapshot(e2) == before, "another engine changed")
    e3 = API.create_engine()
    API.create_rigid_body(e3, "p")
    ensure(snapshot(e3) == before, "a new engine is affected by an older one", have=snapshot(e3), want=before)
    ensure(e2.params.time_step == e3.params.time_step != 77.0, "parameters shared")
    ensure(e1.stepper is not e2.stepper, "stepper (with its log) is shared")
    API.create_gravity_force(e2, "g", 9.8, np.array([0, 1.0, 0]))
    close(e2.forces["g"].up, [0, 1, 0], atol=1e-12, msg="up of a new gravity")


if __name__ == "__main__":
    sys.exit(main("C22", ["Shapes are boxes of size 0.5..2."]))
