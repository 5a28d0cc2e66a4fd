"""C37: the soft-body scene API behaves as a registry: unique names, all-or-nothing refusals, isolated stored values."""
from pbt import *
import softgen as sg
from softgen import API, ME

NAMES = ["a", "b", "Zulu", "x y"]
MATS = ["default", "wood", "ice", "Steel"]
REFUSALS = (ValueError, RuntimeError, TypeError)
DEFAULT_MAT = None


def mat_of(m):
    return (float(m.E), float(m.nu), float(m.rho), float(m.c), getattr(m.constitutive_model, "__name__", str(m.constitutive_model)))


def arr(a):
    return tuple(np.round(np.ravel(np.asarray(a, float)), 12))


def snapshot(eng):
    """everything observable of the engine through names"""
    s = {}
    for n, b in eng.bodies.items():
        s["b", n] = (b.name, b.idx, b.offset, arr(b.x0), tuple(np.ravel(b.T)), arr(b.x), arr(b.u), arr(b.gravity), bool(b.is_fixed), b.material_description.name,
                     tuple(sorted({(int(c.idx), arr(c.value)) for c in b.dirichlet_conditions})),
                     tuple(sorted((int(t.i), int(t.j), int(t.k), arr(t.traction)) for t in b.traction_conditions)))
    for n, m in eng.materials.items():
        s["m", n] = mat_of(m)
    for k, i in eng.surfaces_interactions.storage.items():
        s["i", k] = float(i.mu[0])
    s["n"] = eng.number_of_nodes
    return s


def shape_key(V, T):
    """the mesh as a set of element corner sets, independent of numbering"""
    P = [tuple(np.round(v, 9)) for v in V]
    return sorted(tuple(sorted(P[i] for i in t)) for t in T)


def a_mesh(d):
    V, T = sg.VM.create_beam(2, 2, d.int(2, 3), d(pos(0.5, 2)), d(pos(0.5, 2)), d(pos(0.5, 2)))
    V = np.array(V + d(vec(3, -3, 3)))
    return V, np.array(T)


OPS = ["body", "body", "material", "elastic", "visc", "dens", "model", "set_material", "set_material", "type", "vel", "grav", "coords", "dirichlet", "traction",
       "interaction", "interaction", "get"]


@sub(quick=200, thorough=4000)
def registry_model(d):
    """operation sequences on engines against a dictionary model; refused calls change nothing, arguments and results are not aliased; non-trivial if at least one call is refused and six succeed"""
    eng = sg.engine(2)
    eng.params.use_spatial_hashing = d.bool()
    bodies, nodes = {}, 0
    mats = {"default": mat_of(eng.materials["default"])}
    inter = {("default", "default"): float(eng.surfaces_interactions.get_interaction("default", "default").mu[0])}
    ref = sg.engine(2)
    API.create_soft_body(ref, "p", *a_mesh(d))
    G0 = ref.bodies["p"].gravity.copy()           # whatever the default is
    good = bad = 0
    for step in range(d.size(6, 22, 50, 12)):
        if step > 2 and d.int(0, 3) == 3:         # the same call on the same object once more
            pass
        else:
            op = d.pick(OPS) if step > 1 else ["body", "material"][step]
            n = d.pick(NAMES) if op == "body" else d.pick(NAMES + list(bodies) * 4)
        mt = d.pick(MATS) if op in ("material", "interaction") else d.pick(MATS + list(mats) * 2)
        before = snapshot(eng)
        mutate, eff, judge_alias = [], (lambda: None), True
        b = bodies.get(n)
        if op == "body":
            V, T = a_mesh(d)
            broken = d.int(0, 5) == 5
            if broken:                            # one element is inside out, or flat
                e = d.int(0, len(T) - 1)
                if d.bool():
                    T[e] = T[e][[1, 0, 2, 3]]
                else:                             # exactly representable: the volume is zero without round-off
                    V = np.round(V * 64) / 64
                    T[e, 3] = T[e, 2]
            V0, T0 = V.copy(), T.copy()
            ok = n not in bodies and not broken
            call = lambda: API.create_soft_body(eng, n, V, T)

            def eff():
                global_offset = sum(len(x["x0"]) for x in bodies.values())
                close(V, V0, atol=0, rtol=0, msg="create_soft_body changed the caller's vertices")
                ensure((T == T0).all(), "create_soft_body changed the caller's elements")
                x0 = API.get_material_coordinates(eng, n)
                ensure(shape_key(x0, eng.bodies[n].T) == shape_key(V0, T0), "the body is not the given mesh")
                bodies[n] = dict(idx=len(bodies), off=global_offset, x0=x0.copy(), T=np.array(eng.bodies[n].T), x=x0.copy(), u=np.zeros_like(x0), g=G0, fixed=False,
                                 mat="default", dir=set(), tr=[])
            mutate = [V, T]
        elif op == "material":
            ok = mt not in mats
            call = lambda: API.create_material(eng, mt)

            def eff():
                mats[mt] = mat_of(sg.engine(2).materials["default"])
        elif op == "elastic":
            E, nu = d(st.sampled_from([1e5, 2e3, 7.0, 0.0, -1.0])), d(st.sampled_from([0.0, 0.3, 0.45, 0.1, -0.01, 0.51]))
            ok = mt in mats and E > 0 and 0 <= nu <= 0.5
            call = lambda: API.set_elasticity(eng, mt, E, nu)
            eff = lambda: mats.__setitem__(mt, (E, nu) + mats[mt][2:])
        elif op == "visc":
            c = d(st.sampled_from([0.0, 1.5, 30.0, -1.0]))
            ok = mt in mats and c >= 0
            call = lambda: API.set_viscosity(eng, mt, c)
            eff = lambda: mats.__setitem__(mt, mats[mt][:3] + (c,) + mats[mt][4:])
        elif op == "dens":
            rho = d(st.sampled_from([1.0, 1.5, 3000.0, -1.0]))
            ok = mt in mats and rho >= 0
            call = lambda: API.set_mass_density(eng, mt, rho)
            eff = lambda: mats.__setitem__(mt, mats[mt][:2] + (rho,) + mats[mt][3:])
        elif op == "model":
            mo = d.pick([ME.SVK, ME.SNH, ME.COR, object, "SVK", None])
            ok = mt in mats and isinstance(mo, type) and mo is not object
            call = lambda: API.set_constitutive_model(eng, mt, mo)
            eff = lambda: mats.__setitem__(mt, mats[mt][:4] + (mo.__name__,))
        elif op == "set_material":
            ok = b is not None and mt in mats
            call = lambda: API.set_material(eng, n, mt)
            eff = lambda: b.__setitem__("mat", mt)
        elif op == "type":
            t = d.pick(["fixed", "Fixed", "FIXED", "free", "Free", "FREE", "frozen", ""])
            ok = b is not None and t.lower() in ("fixed", "free")
            call = lambda: API.set_type(eng, n, t)
            eff = lambda: b.__setitem__("fixed", t.lower() == "fixed")
        elif op in ("vel", "grav"):
            v = d(vec(d.pick([3, 3, 3, 2, 4]), -5, 5))
            vv = v.copy()
            ok = b is not None and len(v) == 3
            f = API.set_velocity if op == "vel" else API.set_gravity
            call = lambda: f(eng, n, v)
            mutate = [v]
            eff = (lambda: b.__setitem__("u", np.tile(vv, (len(b["x0"]), 1)))) if op == "vel" else (lambda: b.__setitem__("g", vv))
        elif op == "coords":
            base = b["x0"] if b is not None else np.zeros((8, 3))
            extra = d.pick([0, 0, 0, 1])
            X = np.vstack([base * d(pos(0.5, 2)) + d(vec(3, -2, 2)), np.zeros((extra, 3))])
            XX = X.copy()
            ok = b is not None and extra == 0
            call = lambda: API.set_spatial_coordinates(eng, n, X)
            mutate = [X]
            eff = lambda: b.__setitem__("x", XX)
        elif op in ("dirichlet", "traction"):
            nrm, rel = d(unit()), d(num(-0.5, 0.9))
            cen = b["x0"].mean(axis=0) if b is not None else np.zeros(3)
            if b is not None and d.int(0, 2) == 0:
                cen, rel = b["x0"][d.int(0, len(b["x0"]) - 1)].copy(), 0.0          # a node exactly on the surface is inside
            phi = lambda x: float(nrm @ (x - cen) - rel)
            ok = b is not None
            inside = [i for i in range(len(b["x0"]))if phi(b["x0"][i]) <= 0] if b is not None else []
            if op == "dirichlet":
                call = lambda: API.create_dirichlet_conditions(eng, n, phi)
                eff = lambda: b["dir"].update((i, arr(b["x0"][i])) for i in inside)
            else:
                load = d.pick([0, 1, 1, 1])
                L = d(vec(3, -3, 3)) if load else [1.0, 2.0, 3.0]
                LL = arr(L)
                mutate = [L] if load else []
                ok = ok and bool(load)
                call = lambda: API.create_traction_conditions(eng, n, phi, L)

                def eff():
                    S = set(inside)
                    tri = {}
                    for t in b["T"]:
                        for f in ((0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3)):
                            key = tuple(sorted(int(t[k]) for k in f))
                            tri[key] = tri.get(key, 0) + 1
                    b["tr"] += [(key, LL) for key, cnt in tri.items() if cnt == 1 and set(key) <= S]
        elif op == "interaction":
            mb = d.pick(MATS)
            mu = d(st.sampled_from([0.0, 0.3, 1.0, 2.0, 0.7, -0.5]))
            key = tuple(sorted((mt, mb)))
            ok = mt in mats and mb in mats and key not in inter and mu >= 0
            call = lambda: API.create_surfaces_interaction(eng, mt, mb, mu)
            eff = lambda: inter.__setitem__(key, mu)
        else:
            ok = b is not None
            got = []
            call = lambda: got.append(API.get_material_coordinates(eng, n))

            def eff():
                close(got[0], b["x0"], atol=0, msg="material coordinates")
                got[0] += 17.0
        d.label(op + ("+" if ok else "-"))
        try:
            call()
            raised = None
        except Exception as ex:
            raised = ex
        if ok:
            good += 1
            ensure(raised is None, f"{op} refused although it is valid: {raised!r}", name=n, material=mt)
            eff()
            for x in mutate:
                x[:] = 1
        else:
            bad += 1
            ensure(raised is not None, f"{op} accepted although it must be refused", name=n, material=mt)
            ensure(isinstance(raised, REFUSALS), f"{op} raised {raised!r} instead of a clear refusal")
            ensure(snapshot(eng) == before, f"refused {op} changed the engine")
        # ------------------------------------------------------------------------------------- compare with the model
        want = {("m", k): v for k, v in mats.items()}
        want.update({("i", k): v for k, v in inter.items()})
        want["n"] = sum(len(x["x0"]) for x in bodies.values())
        have = snapshot(eng)
        for k, x in bodies.items():
            want["b", k] = (k, x["idx"], x["off"], arr(x["x0"]), tuple(np.ravel(x["T"])), arr(x["x"]), arr(x["u"]), arr(x["g"]), x["fixed"], x["mat"],
                            tuple(sorted(x["dir"])), None)
            h = have["b", k]
            trs = sorted((tuple(sorted(t[:3])), t[3]) for t in h[-1])
            ensure(trs == sorted(x["tr"]), f"after {op}: traction conditions of {k}", have=trs, want=sorted(x["tr"]))
            have["b", k] = h[:-1] + (None,)
        ensure(set(have) == set(want), f"after {op}: registered names differ", have=sorted(map(str, have)), want=sorted(map(str, want)))
        for k in want:
            ensure(have[k] == want[k], f"after {op}: entry {k} differs", have=have[k], want=want[k])
        for A in MATS:
            for B in MATS:
                i = eng.surfaces_interactions.get_interaction(A, B)
                w = inter.get(tuple(sorted((A, B))), inter["default", "default"])
                ensure(float(i.mu[0]) == w, f"after {op}: interaction of {A} and {B}", have=float(i.mu[0]), want=w)
                ensure(bool(eng.surfaces_interactions.exist_interaction(A, B)) == (tuple(sorted((A, B))) in inter), f"after {op}: exist_interaction of {A} and {B}")
            ensure(bool(eng.surfaces_interactions.exist_material(A)) == any(A in k for k in inter), f"after {op}: exist_material of {A}")
    d.nontrivial(bad >= 1 and good >= 6)


@sub(quick=120, thorough=2000)
def meshes_become_bodies(d):
    """the elements, volumes, boundary triangles and owners of a body are those of the mesh it was made of, whatever the numbering; non-trivial if more than one element"""
    V, T = sg.tetmesh(d)
    V0, T0 = V.copy(), T.copy()
    eng = sg.engine(3)
    eng.params.use_spatial_hashing = d.bool()
    API.create_soft_body(eng, "p", V, T)
    ensure((V == V0).all() and (T == T0).all(), "the caller's mesh was changed")
    b = eng.bodies["p"]
    ensure(shape_key(b.x0, b.T) == shape_key(V0, T0), "elements are not those given")
    close(np.sort(b.vol0), np.sort(sg.vols(V0, T0)), atol=1e-12, rtol=1e-9, msg="volumes")
    close(b.vol0, sg.vols(b.x0, b.T), atol=1e-12, rtol=1e-9, msg="volume per element")
    cnt = {}
    for e, t in enumerate(np.asarray(b.T)):
        for f in ((0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3)):
            cnt.setdefault(frozenset(int(t[k]) for k in f), []).append(e)
    want = {k: v[0] for k, v in cnt.items() if len(v) == 1}
    have = [frozenset(map(int, s)) for s in b.surface]
    ensure(len(have) == len(set(have)) and set(have) == set(want), "surface is not the boundary of the mesh")
    own = np.asarray(b.owners).reshape(len(have), -1)[:, 0]
    for k, s in enumerate(have):
        ensure(int(own[k]) == want[s], "owner of a surface triangle", triangle=k, have=int(own[k]), want=want[s])
    X = b.x0
    for t, s in zip(b.surface, have):                              # outward orientation: away from the owner's fourth node
        other = [n for n in b.T[want[s]] if int(n) not in s][0]
        nrm = np.cross(X[t[1]] - X[t[0]], X[t[2]] - X[t[0]])
        ensure(nrm @ (X[other] - X[t[0]]) < 0, "surface triangle points inwards")
    close(b.x, b.x0, atol=0, msg="initial coordinates")
    close(b.u, np.zeros_like(b.x0), atol=0, msg="initial velocities")
    ensure(b.x is not b.x0, "spatial coordinates alias the material coordinates")
    d.nontrivial(len(T) > 1)


@sub(quick=80, thorough=1200)
def setters_commute(d):
    """a body has the same attributes, element masses and damping whatever the order in which body and material are set up (also twice, also after a step), each setter changes its own attributes only; non-trivial with six setters"""
    V, T = a_mesh(d)
    v, g, E, nu, rho, c, scale = d(vec(3, -2, 2)), d(vec(3, -9, 9)), d(pos(1e2, 1e5)), d(num(0, 0.45)), d(pos(0.5, 3000)), d(pos(0.01, 30)), d(pos(0.8, 1.2))
    mo, t = d.pick([ME.SVK, ME.SNH, ME.COR]), d.pick(["fixed", "free"])
    calls = dict(vel=(lambda e: API.set_velocity(e, "p", v), {"u"}), grav=(lambda e: API.set_gravity(e, "p", g), {"gravity"}),
                 coords=(lambda e: API.set_spatial_coordinates(e, "p", API.get_material_coordinates(e, "p") * scale), {"x"}), type=(lambda e: API.set_type(e, "p", t), {"fixed"}),
                 mat=(lambda e: API.set_material(e, "p", "wood"), {"mat", "M", "C", "desc"}), elastic=(lambda e: API.set_elasticity(e, "wood", E, nu), {"desc"}),
                 dens=(lambda e: API.set_mass_density(e, "wood", rho), {"desc", "M"}), visc=(lambda e: API.set_viscosity(e, "wood", c), {"desc", "C"}),
                 model=(lambda e: API.set_constitutive_model(e, "wood", mo), {"desc"}))
    use = [k for k in calls if d.int(0, 4) > 0]
    step = d.bool()
    d.nontrivial(len(use) >= 6)

    def attr(b):
        return dict(u=arr(b.u), gravity=arr(b.gravity), x=arr(b.x), x0=arr(b.x0), fixed=bool(b.is_fixed), mat=b.material_description.name,
                    M=tuple(np.ravel(b.M_array)), C=tuple(np.ravel(b.C_array)), desc=mat_of(b.material_description), vol=arr(b.vol0), T=tuple(np.ravel(b.T)))
    end = []
    for k in range(2):
        eng = sg.engine(2)
        API.create_soft_body(eng, "p", V.copy(), T.copy())
        API.create_material(eng, "wood")
        b = eng.bodies["p"]
        if step and k:                                             # the stepper and what it precomputes exist already
            x, u = b.x.copy(), b.u.copy()
            API.simulate(eng, 1e-6)
            b.x[:], b.u[:] = x, u
        order = list(np.random.RandomState(d.int(0, 9999)).permutation(use)) if use else []
        if order and d.bool():
            order.append(d.pick(order))
        for o in order:
            p = attr(b)
            calls[o][0](eng)
            q = attr(b)
            changed = {a for a in p if p[a] != q[a]}
            ensure(changed <= calls[o][1], f"setting {o} changed other attributes of the body", changed=changed - calls[o][1])
        a = attr(b)
        API.simulate(eng, 1e-4)
        a["x after a step"], a["u after a step"] = np.array(b.x), np.array(b.u)
        end.append(a)
    for a in end[0]:
        if a.endswith("step"):
            close(end[0][a], end[1][a], atol=1e-9 * (1 + np.abs(end[0][a]).max()), msg=f"{a} depends on the order in which the scene was set up")
        else:
            ensure(end[0][a] == end[1][a], f"{a} depends on the order in which the scene was set up", setters=use)


@sub(quick=60, thorough=800)
def engines_are_independent(d):
    """what is done to one engine is invisible in another one and in freshly created ones (materials, interactions, parameters, bodies)"""
    e1, e2 = sg.engine(2), sg.engine(2)
    V, T = a_mesh(d)
    for e in (e1, e2):
        API.create_soft_body(e, "p", V, T)
    before = snapshot(e2)
    hash2 = (e2.hash_grid.cell_size, e2.params.time_step)
    API.set_velocity(e1, "p", d(vec(3, 1, 4)))
    API.set_gravity(e1, "p", d(vec(3, 1, 4)))
    e1.bodies["p"].x += 1.0
    e1.bodies["p"].gravity += 1.0
    e1.surfaces_interactions.storage["default", "default"].mu[0] = d(pos(2, 5))
    sg.material(e1, "wood", d)
    API.set_elasticity(e1, "default", 77.0, 0.2)
    API.set_mass_density(e1, "default", 77.0)
    API.create_surfaces_interaction(e1, "wood", "default", 0.1)
    API.create_dirichlet_conditions(e1, "p", lambda x: -1)
    API.create_traction_conditions(e1, "p", lambda x: -1, np.ones(3))
    e1.params.time_step = 77.0
    API.create_soft_body(e1, "q", V, T)
    ensure(snapshot(e2) == before and (e2.hash_grid.cell_size, e2.params.time_step) == hash2, "another engine changed")
    e3 = sg.engine(2)
    API.create_soft_body(e3, "p", V, T)
    ensure(snapshot(e3) == before, "a new engine is affected by an older one")
    # two bodies of one engine do not share anything either
    API.create_soft_body(e2, "q", V, T)
    keep = snapshot(e2)["b", "p"]
    e2.bodies["q"].x += 1.0
    e2.bodies["q"].u += 1.0
    e2.bodies["q"].gravity += 1.0
    API.set_type(e2, "q", "fixed")
    API.create_dirichlet_conditions(e2, "q", lambda x: -1)
    API.create_traction_conditions(e2, "q", lambda x: -1, np.ones(3))
    ensure(snapshot(e2)["b", "p"] == keep, "bodies of one engine share state")


if __name__ == "__main__":
    sys.exit(main("C37", ["Poisson ratio exactly 0.5 is not exercised (first Lame parameter is infinite)."]))
