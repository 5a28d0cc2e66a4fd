"""C43: an exported scene file describes the scene: read back, it has every body, force, shape, material, hinge and parameter of the engine."""
from pbt import *
import copy, os, re
import xml.etree.ElementTree as ET
import meshgen as mg
import rainbow.simulators.prox_rigid_bodies.api as API
import rainbow.simulators.prox_rigid_bodies.scenes as SCENES

COUNT = __import__("itertools").count()
SCRATCH = os.environ.get("VERIF_SCRATCH", "/tmp")
NAMES = ["a", "B2", "box <1>", "A & B", "\"q\"", "it's", "søjle", "x=1;y", "zz-9", " lead"] + [f"no {i}" for i in range(14)]
MATS = ["default", "wood", "ice", "Steel", "<m>&"]


def numbers(text):
    return np.array([float(x) for x in text.strip().replace("[", " ").replace("]", " ").split()])


def kids(node, tag=None):
    return [k for k in node if tag is None or k.tag == tag]


def same_numbers(node, attr, want, what):
    close(numbers(node.get(attr)), np.ravel(want), atol=1.001e-8, rtol=1.001e-8, msg=f"exported {what} '{attr}'", got=node.get(attr), want=want)


def exported(engine):
    path = os.path.join(SCRATCH, f"c43-{os.getpid()}-{next(COUNT)}.xml")
    try:
        SCENES.write_xml(engine, path)
        with open(path, "rb") as f:
            return f.read()
    finally:
        if os.path.exists(path):
            os.remove(path)


def snapshot(e):
    s = {}
    for n, b in e.bodies.items():
        s["b", n] = (b.name, b.idx, tuple(b.q), tuple(b.r), tuple(b.v), tuple(b.w), b.mass, tuple(np.ravel(b.inertia)), b.shape.name, b.is_fixed,
                     tuple(f.name for f in b.forces), b.material)
    for n, h in e.shapes.items():
        s["s", n] = (h.mesh.V.tobytes(), h.mesh.T.tobytes())
    for n, h in e.hinges.items():
        s["h", n] = (tuple(h.arm_p), tuple(h.arm_c), tuple(h.axis_p), tuple(h.axis_c), h.parent.name, h.child.name)
    s["p"] = tuple(sorted((k, v) for k, v in vars(e.params).items()))
    s["i"] = tuple((k, i.epsilon, tuple(np.ravel(i.mu))) for k, i in e.surfaces_interactions.storage.items())
    return s


def judge(e, data):
    """the file holds what the engine holds"""
    root = ET.fromstring(data)
    ensure(root.tag == "scene" and sorted(k.tag for k in root) == ["bodies", "forces", "hinges", "materials", "params", "shapes"], "sections of the scene file")
    sec = {k.tag: k for k in root}

    nodes = kids(sec["bodies"])
    ensure([n.get("name") for n in nodes] == list(e.bodies), "one entry per body, in order", got=[n.get("name") for n in nodes])
    for n, b in zip(nodes, e.bodies.values()):
        ensure(int(n.get("idx")) == b.idx and n.get("shape") == b.shape.name and n.get("material") == b.material, "body attributes", got=n.attrib)
        ensure({"True": True, "False": False}[n.get("is_fixed")] == bool(b.is_fixed), "fixed flag", got=n.attrib)
        for attr, want in (("pos", b.r), ("rot", b.q), ("vel", b.v), ("spin", b.w), ("inertia", b.inertia)):
            same_numbers(n, attr, want, "body")
        ensure(float(n.get("mass")) == b.mass, "body mass", got=n.get("mass"), want=b.mass)
        ensure([k.get("name") for k in kids(n, "apply")] == [f.name for f in b.forces], "forces applied to the body", got=[k.get("name") for k in n])

    nodes = kids(sec["forces"])
    ensure(sorted(n.get("name") for n in nodes) == sorted(e.forces), "one entry per force", got=[n.get("name") for n in nodes])
    for n in nodes:
        f = e.forces[n.get("name")]
        if f.force_type == "Gravity":
            ensure(n.tag == "gravity" and float(n.get("g")) == f.g, "gravity entry", got=n.attrib)
            same_numbers(n, "up", f.up, "gravity")
        else:
            ensure(n.tag == "damping" and float(n.get("alpha")) == f.alpha and float(n.get("beta")) == f.beta, "damping entry", got=n.attrib)

    nodes = kids(sec["shapes"])
    ensure([n.get("name") for n in nodes] == list(e.shapes), "one entry per shape", got=[n.get("name") for n in nodes])
    for n, s in zip(nodes, e.shapes.values()):
        v, t = n.find("vertices"), n.find("triangles")
        ensure(int(v.get("count")) == len(v) == len(s.mesh.V) and int(t.get("count")) == len(t) == len(s.mesh.T), "counts of a shape")
        ensure([int(k.get("idx")) for k in v] == list(range(len(v))) and [int(k.get("idx")) for k in t] == list(range(len(t))), "labels are in order")
        for k, p in zip(v, s.mesh.V):
            same_numbers(k, "p", p, "vertex")
        ensure(all(numbers(k.get("labels")).tolist() == [float(x) for x in f] for k, f in zip(t, s.mesh.T)), "triangle labels")

    got = {}
    for n in kids(sec["materials"]):
        pair = tuple(sorted(re.findall("|".join(sorted(map(re.escape, {m for k in e.surfaces_interactions.storage for m in k}), key=len, reverse=True)), n.get("materials"))))
        ensure(pair not in got and len(pair) == 2, "materials of an interaction", got=n.get("materials"))
        got[pair] = n
    ensure(sorted(got) == sorted(tuple(sorted(k)) for k in e.surfaces_interactions.storage), "one entry per surface interaction", got=sorted(got))
    for k, i in e.surfaces_interactions.storage.items():
        n = got[tuple(sorted(k))]
        same_numbers(n, "friction", i.mu, "interaction")
        ensure(float(n.get("restitution")) == i.epsilon, "restitution", got=n.attrib)

    nodes = kids(sec["hinges"])
    ensure([n.get("name") for n in nodes] == list(e.hinges), "one entry per hinge", got=[n.get("name") for n in nodes])
    for n, h in zip(nodes, e.hinges.values()):
        ensure(n.get("parent") == h.parent.name and n.get("child") == h.child.name and n.get("mode") == "world", "hinge links", got=n.attrib)
        ensure(int(n.get("parent-idx")) == h.parent.idx and int(n.get("child-idx")) == h.child.idx, "hinge link numbers", got=n.attrib)

    got = {n.get("name"): n for n in kids(sec["params"])}
    ensure(sorted(got) == sorted(vars(e.params)), "one entry per parameter", got=sorted(got))
    for k, v in vars(e.params).items():
        ensure(got[k].get("value") == str(v) and got[k].get("type") == type(v).__name__, "parameter value", got=got[k].attrib, want=v)
    return sec


def random_scene(d):
    rng = np.random.RandomState(d.int(0, 99999))
    e = API.create_engine()
    e.params.resolution = d.int(3, 5)
    scale = 10.0 ** rng.uniform(-4, 4)
    pick = lambda k: [NAMES[i] for i in rng.permutation(10 if k < 7 else len(NAMES))[:k]]
    shapes = pick(d.size(1, 2, 12))
    for s in shapes:
        kind = d.pick(["box", "hull", "tet"])
        V, T = mg.box(*rng.uniform(.5, 2, 3)) if kind == "box" else mg.hull(rng.uniform(-1, 1, (4 if kind == "tet" else 9, 3)))
        if d.int(0, 15) == 0:                              # at times a mesh with more than a thousand vertices
            while len(V) < 1000:
                V, T = mg.refine(V, T)
        API.create_shape(e, s, API.create_mesh(V * (scale if d.bool() else 1.0), T))
    mats = ["default"]
    for k in range(d.int(0, 4)):
        A, B = d.pick(MATS), d.pick(MATS)
        if not e.surfaces_interactions.exist_interaction(A, B):
            API.create_surfaces_interaction(e, A, B, float(d.pick([0.0, .5, rng.uniform()])), [float(d.pick([0, 1, 1e-3, rng.uniform(0, 2)])) for _ in range(3)])
            mats += [A, B]
    forces = pick(d.size(0, 3, 12))
    for f in forces:
        if d.bool():
            API.create_gravity_force(e, f, float(rng.uniform(.1, 20)), rng.normal(size=3))
        else:
            API.create_damping_force(e, f, *(10.0 ** rng.uniform(-6, 1, 2)))
    bodies = pick(d.size(1, 5, 16))
    for b in bodies:
        API.create_rigid_body(e, b)
        API.connect_shape(e, b, d.pick(shapes))
        API.set_mass_properties(e, b, float(10.0 ** rng.uniform(-3, 3)))
        API.set_position(e, b, rng.normal(size=3) * scale if d.bool() else np.array([float(d.pick([0, 1, -2, 1 / 3])) for _ in range(3)]))
        API.set_orientation(e, b, rng.normal(size=4))
        if d.bool():
            API.set_velocity(e, b, rng.normal(size=3) * scale)
            API.set_spin(e, b, rng.normal(size=3))
        if d.int(0, 3) == 0:
            API.set_body_type(e, b, "fixed")
        API.set_body_material(e, b, d.pick(mats))
        for i in rng.permutation(len(forces))[:d.int(0, len(forces))]:
            API.connect_force(e, b, forces[i])
    return e, rng, scale, bodies


@sub(quick=150, thorough=3000)
def random_scenes(d):
    """engines with random shapes, bodies, forces, materials, awkward names, hinges and changed parameters: everything is found in the file and the engine is untouched; non-trivial with two bodies and two of forces, interactions, hinges"""
    e, rng, scale, bodies = random_scene(d)
    world = {}
    if len(bodies) > 1:
        for k in range(d.int(0, 3)):
            i, j = rng.permutation(len(bodies))[:2]
            o, s = rng.normal(size=3) * (scale if d.bool() else 1.0), rng.normal(size=3)
            s /= np.linalg.norm(s)
            name = NAMES[9 - k]
            API.create_hinge(e, name)
            API.set_hinge(e, name, bodies[i], bodies[j], o, s)
            world[name] = (bodies[i], o, s)
    if d.bool():
        for k, v in list(vars(e.params).items()):
            if d.int(0, 3) == 0:
                setattr(e.params, k, (not v) if isinstance(v, bool) else type(v)(v + 1) if isinstance(v, int) else float(rng.uniform(0, 3)))
    # the whole mechanism moves along with one rigid motion per hinge parent, so the world pose of its joint is known
    moved = d.bool()
    motion = {}
    if moved:
        for b in bodies:
            R0, r0 = ref_matrix(e.bodies[b].q), np.array(e.bodies[b].r)
            API.set_position(e, b, rng.normal(size=3) * scale)
            API.set_orientation(e, b, rng.normal(size=4))
            motion[b] = (R0, r0, ref_matrix(e.bodies[b].q), np.array(e.bodies[b].r))
    before = snapshot(e)
    data = exported(e)
    ensure(snapshot(e) == before, "exporting leaves the engine alone")
    sec = judge(e, data)
    for n in kids(sec["hinges"]):
        b, o, s = world[n.get("name")]
        if moved:
            R0, r0, R1, r1 = motion[b]
            o, s = R1 @ (R0.T @ (o - r0)) + r1, R1 @ (R0.T @ s)
        size = np.abs(o).max() + np.abs(e.bodies[b].r).max() + (np.abs(motion[b][1]).max() if moved else 0) + np.abs(world[n.get("name")][1]).max()
        close(numbers(n.get("origin")), o, atol=1.001e-8 + 1e-12 * size, rtol=1.1e-8, msg="world origin of the hinge", name=n.get("name"))
        close(numbers(n.get("axis")), s, atol=1.1e-8, msg="world axis of the hinge", name=n.get("name"))
    if d.bool():
        ensure(exported(e) == data, "exporting twice gives the same file")
    d.nontrivial(len(bodies) > 1 and (len(e.forces) > 0) + (len(e.surfaces_interactions.storage) > 1) + (len(e.hinges) > 0) >= 2)


@sub(quick=6, thorough=60)
def generated_scenes(d):
    """scenes of the scene generators, also after simulating some steps: everything is found in the file; non-trivial with at least three bodies"""
    e = API.create_engine()
    e.params.resolution = 3
    SCENES.create_scene(e, d.pick(["pillar", "box_stack", "cube_hinge_chain", "arch"]))
    steps = d.int(0, 2)
    for _ in range(steps):
        API.simulate(e, e.params.time_step)
    sec = judge(e, exported(e))
    for n in kids(sec["hinges"]):
        h = e.hinges[n.get("name")]
        R = ref_matrix(h.parent.q)
        close(numbers(n.get("origin")), R @ h.arm_p + h.parent.r, atol=1.1e-8, rtol=1.1e-8, msg="world origin of the hinge")
        close(numbers(n.get("axis")), R @ h.axis_p, atol=1.1e-8, msg="world axis of the hinge")
    d.nontrivial(len(e.bodies) >= 3)


if __name__ == "__main__":
    sys.exit(main("C43", ["Material names without white space; hinges that have been set; bodies that have a shape.",
                          "Numbers are written with eight decimals, as numpy prints them; that much is read back."]))
