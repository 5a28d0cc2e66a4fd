"""C44: an imported robot description is assembled at its zero configuration: links, masses, geometry and joint axes sit where the chain of frames says."""
from pbt import *
import os, shutil
import xml.etree.ElementTree as ET
import meshgen as mg
from scipy.spatial import cKDTree
import rainbow.simulators.prox_rigid_bodies.api as API
import rainbow.simulators.prox_rigid_bodies.scenes as SCENES

COUNT = __import__("itertools").count()
REPO = os.environ.get("RAINBOW_REPO", "/repo")
SCRATCH = os.environ.get("VERIF_SCRATCH", "/tmp")


def rpy_matrix(rpy):
    """fixed-axis roll, pitch, yaw as URDF defines them"""
    (cr, cp, cy), (sr, sp, sy) = np.cos(rpy), np.sin(rpy)
    return np.array([[cy * cp, cy * sp * sr - sy * cr, cy * sp * cr + sy * sr],
                     [sy * cp, sy * sp * sr + cy * cr, sy * sp * cr - cy * sr],
                     [-sp, cp * sr, cp * cr]])


def frame(xyz, rpy):
    T = np.eye(4)
    T[:3, :3], T[:3, 3] = rpy_matrix(rpy), xyz
    return T


def apply(T, V):
    return np.asarray(V) @ T[:3, :3].T + T[:3, 3]


def facets(V, F):
    """centre and area vector of every triangle"""
    P = np.asarray(V)[np.asarray(F)]
    return np.hstack([P.mean(axis=1), np.cross(P[:, 1] - P[:, 0], P[:, 2] - P[:, 0]) / 2])


class Writer:
    def __init__(self, d, rng):
        self.d, self.rng = d, rng

    def origin(self, scale=1.0):
        """an origin element (or none) and the frame it means"""
        d, rng = self.d, self.rng
        kind = d.pick(["none", "empty", "xyz", "rpy", "both", "both", "both"])
        xyz = rng.uniform(-1, 1, 3) * scale if kind in ("xyz", "both") else np.zeros(3)
        rpy = np.zeros(3)
        if kind in ("rpy", "both"):
            rpy = rng.uniform(-np.pi, np.pi, 3) if d.bool() else np.array([float(d.pick([0, np.pi / 2, -np.pi / 2, np.pi, .3])) for _ in range(3)])
        text = lambda v: d.pick([" ", "  "]).join(repr(float(x)) for x in v)
        if kind == "none":
            return "", np.eye(4)
        a = (f' xyz="{text(xyz)}"' if kind in ("xyz", "both") else "") + (f' rpy="{text(rpy)}"' if kind in ("rpy", "both") else "")
        return f"<origin{a}/>", frame(xyz, rpy)


def write_mesh(path, V, F):
    """a mesh file in the format its extension names"""
    kind = path.rsplit(".", 1)[1].lower()
    with open(path, "w") as f:
        if kind == "stl":
            tri = "facet normal 0 0 0\nouter loop\n" + 3 * "vertex %r %r %r\n" + "endloop\nendfacet\n"
            return f.write("solid m\n" + "".join(tri % tuple(map(float, V[t].ravel())) for t in F) + "endsolid m\n")
        if kind == "ply":
            f.write(f"ply\nformat ascii 1.0\nelement vertex {len(V)}\nproperty double x\nproperty double y\nproperty double z\nelement face {len(F)}\nproperty list uchar int vertex_indices\nend_header\n")
            return f.write("".join("%r %r %r\n" % tuple(map(float, v)) for v in V) + "".join("3 %d %d %d\n" % tuple(map(int, t)) for t in F))
        f.write("".join("v %r %r %r\n" % tuple(map(float, v)) for v in V) + "".join("f %d %d %d\n" % tuple(int(i) + 1 for i in t) for t in F))


def robot(d, folder):
    """a random tree of links joined by revolute joints; returns links, joints and the path of the description"""
    rng = np.random.RandomState(d.int(0, 99999))
    w = Writer(d, rng)
    os.makedirs(os.path.join(folder, "pkg", "meshes"))
    n = d.pick([1, 2, 3, 3, 4, 5, 7])
    links, joints, text = [], [], []
    for i in range(n):
        V, F = mg.box(*rng.uniform(.2, 1, 3)) if d.bool() else mg.hull(rng.uniform(-.5, .5, (8, 3)) + rng.uniform(-1, 1, 3))
        V = np.asarray(V).astype(np.float32).astype(float)
        file = f"pkg/meshes/{d.pick('mM')}{i}." + d.pick(["obj", "obj", "OBJ", "Obj", "stl", "STL", "ply", "PLY"])
        d.label(file.rsplit(".", 1)[1].lower())
        write_mesh(os.path.join(folder, file), V, F)
        co, C = w.origin()
        io, B = w.origin()
        scale = rng.uniform(.5, 2, 3) if d.pick([True, False, False]) else None
        if scale is not None and d.bool():
            scale[:] = float(d.pick([.001, .5, 2]))
        mass, inertia = float(10 ** rng.uniform(-6, 4)), rng.uniform(1, 1.9, 3) * 10 ** rng.uniform(-6, 3)
        sc = "" if scale is None else ' scale="%r %r %r"' % tuple(map(float, scale))
        url = d.pick(["package://" + file, os.path.join(folder, file)])
        parts = [f'<collision>{co}<geometry><mesh filename="{url}"{sc}/></geometry></collision>',
                 '<inertial>%s<mass value="%r"/><inertia ixx="%r" ixy="0.0" ixz="0" iyy="%r" iyz="0" izz="%r"/></inertial>' % ((io, mass) + tuple(map(float, inertia)))]
        if d.bool():
            parts.append('<visual><origin xyz="9 9 9"/><geometry><mesh filename="package://pkg/none.dae"/></geometry><material name="grey"/></visual>')
        parts = [parts[k] for k in rng.permutation(len(parts))]
        text.append(f'<link name="L{i}">{"".join(parts)}</link>')
        links.append(dict(name=f"L{i}", mesh=(apply(C, V * (1.0 if scale is None else scale)), F), B=B, mass=mass, inertia=inertia, scaled=scale is not None))
    order = rng.permutation(n)
    root = int(order[0])
    shape = d.pick(["chain", "tree", "star"])
    links[root]["W"] = np.eye(4)
    for k in range(1, n):
        p = int(order[dict(chain=k - 1, star=0, tree=int(rng.randint(k)))[shape]])
        c = int(order[k])
        o, J = w.origin(2.0)
        kind = d.pick(["none", "unit", "long"])
        axis = np.array([1.0, 0, 0])
        if kind != "none":
            axis = rng.normal(size=3) if d.bool() else np.eye(3)[d.int(0, 2)] * d.pick([1, -1])
            axis *= 1.0 if kind == "long" else 1 / np.linalg.norm(axis)
        ax = "" if kind == "none" else '<axis xyz="%r %r %r"/>' % tuple(map(float, axis))
        links[c]["W"] = links[p]["W"] @ J
        joints.append(dict(name=f"J{k}", p=f"L{p}", c=f"L{c}", o=links[c]["W"][:3, 3], s=links[c]["W"][:3, :3] @ axis / np.linalg.norm(axis)))
        text.append(f'<joint name="J{k}" type="revolute"><parent link="L{p}"/><child link="L{c}"/>{o}{ax}<limit effort="1" lower="-2" upper="2" velocity="3"/></joint>')
    if d.bool():   # virtual links hang on by fixed joints, as in the robot that comes with the repository
        text.append('<link name="base"/><link name="tool"/>')
        text.append(f'<joint name="base_joint" type="fixed"><parent link="base"/><child link="L{root}"/></joint>')
        text.append(f'<joint name="tool_joint" type="fixed"><parent link="L{int(order[-1])}"/><child link="tool"/><origin xyz="1 2 3"/></joint>')
    text = [text[k] for k in rng.permutation(len(text))]
    with open(os.path.join(folder, "pkg", "robot.urdf"), "w") as f:
        f.write('<?xml version="1.0"?>\n<!-- a robot --><robot name="r">' + "\n".join(text) + "</robot>")
    return links, joints, root, shape


def judge(e, links, joints, tol=1e-9):
    for l in links:
        b = e.bodies[l["name"]]
        T = l["W"] @ l["B"]
        close(b.r, T[:3, 3], atol=tol * 10, msg="body frame of a link (centre)", link=l["name"])
        R = ref_matrix(b.q)
        close(R, T[:3, :3], atol=tol, msg="body frame of a link (orientation)", link=l["name"])
        ensure(b.mass == l["mass"] and np.array_equal(b.inertia, l["inertia"]) and not b.is_fixed, "mass and inertia of a link", got=(b.mass, b.inertia))
        V, F = l["mesh"]
        want = facets(apply(l["W"], V), F)
        got = facets(b.shape.mesh.V @ R.T + b.r, b.shape.mesh.T)
        ensure(len(want) == len(got), "triangles of a link")
        for P, Q in ((want, got), (got, want)):
            dist = cKDTree(P).query(Q)[0].max()
            ensure(dist <= 1e-8, "geometry of a link in the world", link=l["name"], off=dist, scaled=l["scaled"])
    for j in joints:
        h = e.hinges[j["name"]]
        ensure(h.parent is e.bodies[j["p"]] and h.child is e.bodies[j["c"]], "links of a joint")
        for b, arm, axis in ((h.parent, h.arm_p, h.axis_p), (h.child, h.arm_c, h.axis_c)):
            R = ref_matrix(b.q)
            close(R @ arm + b.r, j["o"], atol=1e-8, msg="origin of a joint", joint=j["name"])
            close(R @ axis, j["s"], atol=1e-7, msg="axis of a joint", joint=j["name"])


@sub(quick=700, thorough=9000)
def random_robots(d):
    """random link trees with random collision, inertial and joint frames, scaled meshes, defaults left out, elements in any order, virtual links, other bodies in the engine; non-trivial with at least three links, a moved root inertial frame"""
    folder = os.path.join(SCRATCH, f"c44-{os.getpid()}-{next(COUNT)}")
    os.makedirs(folder)
    try:
        links, joints, root, shape = robot(d, folder)
        e = API.create_engine()
        e.params.resolution = 3
        other = d.bool()
        if other:
            API.create_rigid_body(e, "other")
            V, T = mg.box(1, 2, 3)
            API.create_shape(e, "othershape", API.create_mesh(V, T))
            API.connect_shape(e, "other", "othershape")
            API.set_position(e, "other", np.array([1.0, 2, 3]))
        SCENES.read_urdf(e, folder, d.pick(["pkg/robot.urdf", "/pkg/robot.urdf"]))
        ensure(sorted(e.bodies) == sorted([l["name"] for l in links] + ["other"] * other), "one body per link with geometry", got=sorted(e.bodies))
        ensure(sorted(e.hinges) == sorted(j["name"] for j in joints), "one hinge per revolute joint", got=sorted(e.hinges))
        ensure(len(e.forces) == 0 and sorted(b.idx for b in e.bodies.values()) == list(range(len(e.bodies))), "nothing else is created")
        ensure(not other or e.bodies["other"].r.tolist() == [1, 2, 3], "other bodies stay")
        judge(e, links, joints)
    finally:
        shutil.rmtree(folder)
    d.label(shape)
    d.nontrivial(len(links) >= 3 and not np.array_equal(links[root]["B"], np.eye(4)))


def read_stl(path):
    raw = np.fromfile(path, dtype=np.uint8)[84:].reshape(-1, 50)[:, 12:48].copy().view("<f4").astype(float)
    return raw.reshape(-1, 3), np.arange(len(raw) * 3).reshape(-1, 3)


def described(folder, path):
    """links and joints of a description, read without the importer (URDF's own rules: fixed axes roll, pitch, yaw; zero joint angles)"""
    root = ET.parse(os.path.join(folder, path)).getroot()
    nums = lambda el, key: np.zeros(3) if el is None or el.get(key) is None else np.array([float(x) for x in el.get(key).split()])
    at = lambda el: frame(nums(el.find("origin"), "xyz"), nums(el.find("origin"), "rpy"))
    links, joints = {}, []
    for l in root.findall("link"):
        if l.find("collision") is not None:
            file = l.find("collision/geometry/mesh").get("filename").replace("package:/", folder)
            V, F = read_stl(file)
            i = l.find("inertial")
            links[l.get("name")] = dict(name=l.get("name"), mesh=(apply(at(l.find("collision")), V), F), B=at(i), mass=float(i.find("mass").get("value")),
                                        inertia=np.array([float(i.find("inertia").get(k)) for k in ("ixx", "iyy", "izz")]), scaled=False)
    todo = [j for j in root.findall("joint") if j.get("type") == "revolute"]
    base = set(links) - {j.find("child").get("link") for j in todo}
    ensure(len(base) == 1, "one root (harness)")
    links[base.pop()]["W"] = np.eye(4)
    while todo:
        j = next(j for j in todo if "W" in links[j.find("parent").get("link")])
        todo.remove(j)
        p, c = j.find("parent").get("link"), j.find("child").get("link")
        T = links[c]["W"] = links[p]["W"] @ at(j)
        joints.append(dict(name=j.get("name"), p=p, c=c, o=T[:3, 3], s=T[:3, :3] @ nums(j.find("axis"), "xyz")))
    return list(links.values()), joints


@sub(quick=2, thorough=6)
def bundled_robot(d):
    """the robot scene of the scene catalogue, from the description that comes with the repository, against an independent reading of that file; non-trivial always"""
    e = API.create_engine()
    e.params.resolution = d.int(2, 4)
    os.chdir(REPO)
    SCENES.create_scene(e, "ur5")
    links, joints = described(os.path.join(REPO, "data", "urdf"), "ur_description/ur5e.urdf")
    ensure(sorted(e.bodies) == sorted(l["name"] for l in links) and sorted(e.hinges) == sorted(j["name"] for j in joints), "bodies and hinges of the robot", got=sorted(e.bodies))
    judge(e, links, joints, 1e-8)
    ensure(all(sorted(f.force_type for f in b.forces) == ["Damping", "Gravity"] for b in e.bodies.values()), "forces on the robot")
    d.nontrivial(True)


if __name__ == "__main__":
    sys.exit(main("C44", ["Links with mesh geometry and inertia given in the body frame, joined by revolute joints into one tree, plus virtual links without geometry on fixed joints.",
                          "Other joint and geometry kinds are skipped by the importer with a log message; they are not generated."]))
