"""C35: contact points of soft bodies lie on both bodies, with true normals and gaps, wherever the bodies come close."""
from pbt import *
import softgen as sg
from softgen import API, vols
import rainbow.geometry.volume_mesh as VM
import rainbow.simulators.prox_soft_bodies.solver as SO
import rainbow.simulators.prox_soft_bodies.collision_detection as CD


def box_sdf(p, half):
    q = np.abs(p) - half
    return np.linalg.norm(np.maximum(q, 0)) + min(q.max(), 0.0)


def two_boxes(d, gap=None, res=16):
    """box b (half the size) on the top face of box a; the world is rotated, moved and affinely deformed by the same or separate maps"""
    eng = API.create_engine()
    P = eng.params
    P.resolution, P.envelope = res, 0.02
    P.use_spatial_hashing = d.bool()
    d.label("hash" if P.use_spatial_hashing else "bvh")
    V, T = VM.create_beam(d.int(2, 3), 2, d.int(2, 3), 2.0, 1.0, 1.6)
    V2, T2 = VM.create_beam(2, 2, 2, 1.0, 0.5, 0.8)
    names = d.pick([("a", "b"), ("b", "a")])
    for nm in names:
        API.create_soft_body(eng, nm, *((V, T) if nm == "a" else (V2, T2)))
    a, b = eng.bodies["a"], eng.bodies["b"]
    gap = d(num(-0.04, 0.06)) if gap is None else gap
    off = np.array([d(num(-0.35, 0.35)), 0.5 + 0.25 + gap, d(num(-0.3, 0.3))])
    R = ref_matrix(d(quat())) if d.bool() else np.eye(3)
    t = d(vec(3, -3, 3))
    return eng, a, b, off, R, t, gap


def place(eng, a, b, off, R, t):
    API.set_spatial_coordinates(eng, "a", a.x0 @ R.T + t)
    API.set_spatial_coordinates(eng, "b", (b.x0 + off) @ R.T + t)


def contacts(eng):
    CD.run_collision_detection(eng, {}, False)
    eng.params.time_stamp += 1
    seen = [(id(c.bodyA), id(c.bodyB)) + tuple(c.p) for c in eng.contact_points]
    ensure(len(seen) == len(set(seen)), "the same contact point is reported more than once", contacts=len(seen), distinct=len(set(seen)))
    return list(eng.contact_points)


def consistent(cp, tol=1e-6):
    """weights, positions and normal of one contact point"""
    close(np.linalg.norm(cp.n), 1.0, atol=1e-9, msg="normal is not a unit vector")
    for body, tet, w, nm in ((cp.bodyA, cp.idx_tetA, cp.omegaA, "A"), (cp.bodyB, cp.idx_tetB, cp.omegaB, "B")):
        close(w.sum(), 1.0, atol=1e-9, msg="weights of body %s do not sum to one" % nm)
        close(w @ body.x[body.T[tet]], cp.p, atol=tol, msg="contact point is not the weighted point of body %s" % nm)


@sub(quick=40)
def stacked_boxes(d):
    """a smaller box on the face of a larger one: contacts with the true gap and normal exactly when within the envelope; non-trivial if rotated and touching"""
    eng, a, b, off, R, t, gap = two_boxes(d)
    kind = d.pick(["free", "free", "a", "b"])
    if kind != "free":
        API.set_type(eng, kind, "fixed")
    for _ in range(d.pick([0, 0, 1, 2])):              # the bodies were elsewhere before
        place(eng, a, b, d(vec(3, -1, 1)), ref_matrix(d(quat())), d(vec(3, -9, 9)))
        if d.bool():
            contacts(eng)
    place(eng, a, b, off, R, t)
    cps = contacts(eng)
    touching = gap <= 0.015
    d.nontrivial(touching and np.abs(R - np.eye(3)).max() > 1e-3)
    if gap > 0.03:
        ensure(not cps, "contacts although the bodies are further apart than the envelope", gap=gap, n=len(cps))
    if not touching:
        return
    ensure(any(c.bodyA is a and c.bodyB is b for c in cps), "the upper box does not touch the lower one", gap=gap)
    half = {"a": np.array([1.0, 0.5, 0.8]), "b": np.array([0.5, 0.25, 0.4])}
    shift = {"a": np.zeros(3), "b": off}
    deep = []
    for c in cps:
        consistent(c)
        ensure(c.bodyA is not c.bodyB, "an undeformed body touches itself")
        q = R.T @ (c.p - t) - shift[c.bodyA.name]
        sd = box_sdf(q, half[c.bodyA.name])
        close(c.g, sd, atol=0.02, msg="gap of a contact point")
        ensure(c.g <= eng.params.envelope + 1e-9, "contact beyond the envelope", g=c.g)
        q2 = R.T @ (c.p - t) - shift[c.bodyB.name]
        ensure(abs(box_sdf(q2, half[c.bodyB.name])) < 1e-6, "contact point is not on the surface of body B", sdf=box_sdf(q2, half[c.bodyB.name]))
        edge = np.sort(half[c.bodyA.name] - np.abs(q))
        if edge[1] > 0.2:                              # well inside a face of the box
            n0 = R.T @ c.n
            axis = int(np.argmin(half[c.bodyA.name] - np.abs(q)))
            want = np.zeros(3)
            want[axis] = np.sign(q[axis])
            close(n0, want, atol=0.02, msg="normal does not point out of body A")
            close(c.g, sd, atol=2e-3, msg="gap in the middle of a face")
            deep.append(c)
    ensure(deep, "no contact in the interior of the touching faces")


@sub(quick=40)
def thick_envelope(d):
    """envelopes up to half the size of the bodies: two boxes apart touch exactly when the gap is within the envelope; non-trivial if they do with a gap of more than a tenth of their size"""
    env, gap = d(pos(0.03, 0.5)), d(pos(0.01, 0.6))
    s = d.pick([1.0, 1.0, 2.0 ** -8, 2.0 ** 4])
    eng = API.create_engine()
    P = eng.params
    P.resolution, P.envelope, P.use_spatial_hashing = 14, env * s, d.bool()
    P.contact_optimization_tolerance, P.contact_optimization_max_iterations = P.contact_optimization_tolerance * s, 40
    d.label("hash" if P.use_spatial_hashing else "bvh")
    small = d.pick(["box", "box", "tet"])
    V2, T2 = VM.create_beam(2, 2, 2, 1.0, 0.5, 0.8) if small == "box" else (np.array([[0, -.25, 0], [.4, .5, .3], [-.4, .5, .3], [0, .5, -.4]]), np.array([[0, 1, 2, 3]]))
    T2 = np.where((vols(V2, T2) < 0)[:, None], T2[:, [1, 0, 2, 3]], T2).astype(np.int32)
    meshes = {"a": VM.create_beam(2, 2, 2, 1.6, 1.0, 1.2), "b": (V2, T2)}
    for nm in d.pick([("a", "b"), ("b", "a")]):
        API.create_soft_body(eng, nm, meshes[nm][0] * s, meshes[nm][1])
    R, t = ref_matrix(d(quat())) if d.bool() else np.eye(3), d(vec(3, -3, 3))
    off = np.array([d(num(-0.3, 0.3)), 0.75 + gap, d(num(-0.2, 0.2))])
    a, b = eng.bodies["a"], eng.bodies["b"]
    place(eng, a, b, off * s, R, t * s)
    cps = contacts(eng)
    d.nontrivial(bool(cps) and gap > 0.1)
    for c in cps:
        consistent(c, 1e-6 * s)
        ensure(gap - 0.03 < c.g / s <= env + 1e-9, "gap of a contact across a wide gap", g=c.g / s, gap=gap, envelope=env)
    if gap < env - 0.03:
        ensure(any(c.bodyA is a for c in cps), "no contact although the gap is within the envelope", gap=gap, envelope=env, kind=small)
    if gap > env + 0.03:
        ensure(not cps, "contact although the gap is wider than the envelope", gap=gap, envelope=env)


@sub(quick=40)
def deformed_normals(d):
    """a body sheared or stretched by an affine map has the transformed face normal and its contacts lie on the face; non-trivial if sheared"""
    eng, a, b, off, R, t, gap = two_boxes(d, gap=d(num(-0.02, 0.005)))
    rng = np.random.RandomState(d.int(0, 9999))
    F = ref_matrix(d(quat())) @ (np.eye(3) + 0.25 * rng.uniform(-1, 1, (3, 3)))
    d.nontrivial(True)
    API.set_spatial_coordinates(eng, "a", a.x0 @ F.T + t)
    API.set_spatial_coordinates(eng, "b", (b.x0 + off) @ F.T + t)
    cps = [c for c in contacts(eng)]
    Fi = np.linalg.inv(F)
    n = Fi.T @ np.array([0, 1.0, 0])
    n /= np.linalg.norm(n)
    half = {"a": np.array([1.0, 0.5, 0.8]), "b": np.array([0.5, 0.25, 0.4])}
    found = 0
    for c in cps:
        consistent(c)
        if c.bodyA is c.bodyB:
            fail("a homogeneously deformed body touches itself")
        q = Fi @ (c.p - t) - (0 if c.bodyA is a else off)
        e = half[c.bodyA.name] - np.abs(q)
        if np.sort(e)[1] > 0.2:
            found += 1
            close(c.n, n * (1 if c.bodyA is a else -1), atol=0.03, msg="normal of a deformed body")
            close(c.g, -e.min(), atol=5e-3, msg="material gap")
    ensure(found, "no contact between the touching faces", n=len(cps))


@sub(quick=30)
def lone_bodies(d):
    """bodies far apart, each rigidly moved or mildly deformed, have no contacts at all; non-trivial if deformed"""
    eng = sg.engine(8)
    eng.params.use_spatial_hashing = d.int(0, 3) > 0
    for i in range(d.int(1, 2)):
        V, T = sg.tetmesh(d)
        API.create_soft_body(eng, f"b{i}", V + np.array([50.0 * i, 0, 0]), T)
        b = eng.bodies[f"b{i}"]
        A = ref_matrix(d(quat()))
        if d.bool():
            A = A @ (np.eye(3) + 0.2 * np.random.RandomState(d.int(0, 9999)).uniform(-1, 1, (3, 3)))
            d.nontrivial(True)
        c = b.x0.mean(axis=0)
        API.set_spatial_coordinates(eng, b.name, (b.x0 - c) @ A.T + c + d(vec(3, -2, 2)))
    for _ in range(2):
        ensure(not contacts(eng), "contacts of a body with itself or with a distant one", n=len(eng.contact_points))


@sub(quick=30)
def broad_phases_agree(d):
    """spatial hashing and bounding volume hierarchies find the same contacts, again and again; non-trivial if there are any"""
    res = []
    for hashing in (True, False):
        eng = API.create_engine()
        eng.params.resolution, eng.params.envelope, eng.params.use_spatial_hashing = 12, 0.03, hashing
        if not res:
            k = d.int(2, 3)
            V, T = VM.create_beam(d.int(2, 3), 2, 2, 1.4, 1.0, 0.8)
            reps = d.int(1, 3)
            poses = [[(ref_matrix(d(quat())), d(vec(3, -1.2, 1.2)) + np.array([0.6 * i, 0, 0])) for i in range(k)] for _ in range(reps)]
            fixed = [d.int(0, 3) == 0 for i in range(k)]
        for i in range(k):
            API.create_soft_body(eng, f"b{i}", V, T)
            if fixed[i]:
                API.set_type(eng, f"b{i}", "fixed")
        for r in range(reps):
            for i, (R, t) in enumerate(poses[r]):
                API.set_spatial_coordinates(eng, f"b{i}", eng.bodies[f"b{i}"].x0 @ R.T + t)
            cps = contacts(eng)
        s = {}
        for c in cps:
            consistent(c)
            s[(c.bodyA.name, c.bodyB.name) + tuple(np.round(c.p, 6) + 0.0)] = c.g
        res.append(s)
    h, v = res
    d.nontrivial(len(v) > 0)
    near = lambda key, other: any(k[:2] == key[:2] and np.abs(np.array(k[2:]) - key[2:]).max() < 1e-4 for k in other)
    for name, x, y in (("BVH", v, h), ("spatial hashing", h, v)):
        miss = [k for k in x if not near(k, y)]
        ensure(not miss, "contacts are found by %s only" % name, missing=miss[:3], n=len(x))


@sub(quick=24)
def crowded_floor(d):
    """a wide floor of large triangles with up to nine small, finely meshed boxes anywhere on it, in any order: exactly the boxes that touch it have contacts with it, with both broad phases; non-trivial if three or more touch with spatial hashing"""
    eng = API.create_engine()
    P = eng.params
    P.resolution, P.envelope, P.use_spatial_hashing = 16, 0.02, d.int(0, 3) < 3
    n, first = d.int(4, 9), d.int(0, 3)
    rng = np.random.RandomState(d.int(0, 99999))
    spots = [divmod(int(k), 6) for k in rng.choice(36, n, replace=False)]
    R, t = (ref_matrix(d(quat())) if d.bool() else np.eye(3)), d(vec(3, -3, 3))
    V, T = VM.create_beam(2, 2, 2, 8.0, 1.0, 8.0)
    W, U = VM.create_beam(4, 4, 4, 0.5, 0.5, 0.5)
    touch, placed = {}, {}
    for k in range(n + 1):
        if k == min(first, n):
            API.create_soft_body(eng, "floor", V, T)
        if k < n:
            nm = f"b{k}"
            API.create_soft_body(eng, nm, W, U)
            touch[nm] = d.int(0, 2) < 2
            gap = rng.uniform(-0.02, 0.01) if touch[nm] else rng.uniform(0.05, 0.3)
            placed[nm] = np.array([1.2 * spots[k][0] - 3.0, 0.75 + gap, 1.2 * spots[k][1] - 3.0]) + rng.uniform(-0.2, 0.2, 3) * [1, 0, 1]
    API.set_spatial_coordinates(eng, "floor", eng.bodies["floor"].x0 @ R.T + t)
    for nm, at in placed.items():
        API.set_spatial_coordinates(eng, nm, (eng.bodies[nm].x0 + at) @ R.T + t)
    cps = contacts(eng)
    found = {}
    for c in cps:
        consistent(c)
        names = {c.bodyA.name, c.bodyB.name}
        ensure("floor" in names, "two boxes far apart touch", names=sorted(names))
        found[min(names - {"floor"})] = found.get(min(names - {"floor"}), 0) + 1
    for nm in touch:
        ensure(touch[nm] == (nm in found), "a box on the floor has no contact" if touch[nm] else "a box above the floor touches it", box=nm, at=placed[nm], hashing=P.use_spatial_hashing)
    d.nontrivial(P.use_spatial_hashing and sum(touch.values()) >= 3)


@sub(quick=25)
def pairs_are_independent(d):
    """three boxes, one of them over the seam of the other two or all anywhere: the contacts of a pair are those it has without the third body; non-trivial if all three pairs touch"""
    V, T = VM.create_beam(3, 2, d.int(2, 3), 2.0, 1.0, 1.0)
    names = ["a", "b", "c"]
    mesh = dict.fromkeys(names, (V, T))
    kind = d.pick(["seam", "spike", "spike", "any"])
    if kind == "spike":                                # the tip of a spike in two overlapping boxes
        tip = np.array([d.pick([0.0, 0.1, -0.2]), 0.5 - d.pick([0.05, 0.1]), d.pick([0.0, 0.2])])
        mesh["c"] = (np.vstack([tip, tip + [[0.3, 0.8, 0.3], [-0.3, 0.8, 0.3], [0.0, 0.8, -0.4]]]), np.array([[0, 1, 2, 3]], dtype=np.int32))
        R, t = (np.eye(3), np.zeros(3)) if d.bool() else (ref_matrix(d(quat())), d(vec(3, -3, 3)))
        E3 = mesh["c"][0][1:] - tip
        if np.linalg.det(E3) < 0:
            mesh["c"] = (mesh["c"][0], np.array([[0, 2, 1, 3]], dtype=np.int32))
        poses = [(R, R @ np.array([d.pick([-0.5, 0.0]), 0, 0]) + t), (R, R @ np.array([0.5, d.pick([0.0, 0.02]), 0]) + t), (R, t)]
        d.label("spike")
    elif kind == "seam":
        gap = d.pick([0.0, -0.02, -0.01, 0.01])
        R, t = (np.eye(3), np.zeros(3)) if d.bool() else (ref_matrix(d(quat())), d(vec(3, -3, 3)))
        shift = [np.array([-1.0, 0, 0]), np.array([1.0, 0, 0]), np.array([d.pick([0.0, 0.0, 0.3]), 1.0 + gap, d.pick([0.0, 0.2])])]
        poses = [(R, R @ x + t) for x in shift]
        d.label("seam")
    else:
        poses = [(ref_matrix(d(quat())), d(vec(3, -0.7, 0.7)) + np.array([0.5 * i, 0, 0])) for i in range(3)]
    hashing = d.bool()
    order = [names[i] for i in np.random.RandomState(d.int(0, 99)).permutation(3)]

    def run(some):
        eng = API.create_engine()
        eng.params.resolution, eng.params.envelope, eng.params.use_spatial_hashing = 8, 0.03, hashing
        for nm in order:
            if nm in some:
                R, t = poses[names.index(nm)]
                API.create_soft_body(eng, nm, *mesh[nm])
                API.set_spatial_coordinates(eng, nm, eng.bodies[nm].x0 @ R.T + t)
        out = {}
        for c in contacts(eng):
            consistent(c)
            out.setdefault((c.bodyA.name, c.bodyB.name), []).append(np.append(c.p, c.g))
        return out

    full, touching = run(names), 0
    for x, y in (("a", "b"), ("a", "c"), ("b", "c")):
        alone = run([x, y])
        got = sum(len(full.get(k, [])) for k in ((x, y), (y, x)))
        touching += got > 0
        for k in ((x, y), (y, x)):
            for P, Q, what in ((full.get(k, []), alone.get(k, []), "appears"), (alone.get(k, []), full.get(k, []), "vanishes")):
                far = [p for p in P if not any(np.abs(p - q).max() < 1e-4 for q in Q)]
                ensure(not far, "a contact of a pair %s when a third body is there" % what, pair=k, contact=far[:1], n=len(P))
    d.nontrivial(touching == 3)


def unitq(rng):
    q = rng.normal(size=4)
    return q / np.linalg.norm(q)


def turn(a, b):
    """rotation taking unit vector a to b"""
    v, c = np.cross(a, b), a @ b
    K = np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])
    return np.eye(3) + K + K @ K / (1 + c)


def crossing(P, Q):
    """does one triangle cut the other: True, False or None if that is too close to call (triangles of size about one)"""
    vol = lambda a, b, c, e: np.dot(np.cross(b - a, c - a), e - a)
    unsure = False
    for edges, (a, b, c) in ((P, Q), (Q, P)):
        for i in range(3):
            p, q = edges[i], edges[(i + 1) % 3]
            sp, sq = vol(a, b, c, p), vol(a, b, c, q)
            side = np.array([vol(p, q, a, b), vol(p, q, b, c), vol(p, q, c, a)])
            if min(abs(sp), abs(sq), np.abs(side).min()) > 1e-6:
                if sp * sq < 0 and (np.sign(side) == np.sign(side[0])).all():
                    return True
                continue
            if sp * sq > 1e-10 or (side.max() > 1e-6 and side.min() < -1e-6):
                continue
            unsure = True
    return None if unsure else False


def off_triangle(p, tri):
    """distance of a point from a triangle"""
    import meshgen as mg
    return mg.point_triangle_dist(p, *tri)


@sub(quick=50)
def folded(d):
    """a body of two separate pieces, one of them moved into or next to the other (any size of the world): with spatial hashing the pieces touch exactly on the triangles that cut each other; non-trivial if some do"""
    s = d.pick([1.0, 2.0 ** -12, 2.0 ** 4])
    rng = np.random.RandomState(d.int(0, 99999))
    parts = []
    for i in range(2):
        if d.bool():
            V = rng.uniform(-1, 1, (4, 3))
            while abs(np.linalg.det(V[1:] - V[0])) < 1.0:
                V = rng.uniform(-1, 1, (4, 3))
            T = np.array([[0, 1, 2, 3]])
            T = T if vols(V, T)[0] > 0 else T[:, [1, 0, 2, 3]]
        else:
            V, T = VM.create_beam(2, 2, 2, *rng.uniform(0.8, 1.6, 3))
        parts.append((np.asarray(V) - np.mean(V, axis=0), np.asarray(T)))
    n0 = len(parts[0][0])
    u = rng.normal(size=3)
    home = np.vstack([parts[0][0], parts[1][0] + 4 * u / np.linalg.norm(u)])
    tets = np.vstack([parts[0][1], parts[1][1] + n0])
    R, u = ref_matrix(unitq(rng)), rng.normal(size=3)    # generic: the medial axis has no normal
    at = rng.uniform(0.5, 1.6) * u / np.linalg.norm(u)
    if d.bool():                                           # a corner of one piece pokes into the other, or just not
        k = rng.randint(len(parts[1][0]))
        tip = parts[1][0][k] @ R.T
        p = parts[0][0][parts[0][1][rng.randint(len(parts[0][1]))]]
        goal = rng.dirichlet([3, 3, 3, .3]) @ p
        out = goal / np.linalg.norm(goal)                  # both pieces are centred at the origin so far
        R = turn(tip / np.linalg.norm(tip), -out) @ R
        at = goal - parts[1][0][k] @ R.T + rng.uniform(-0.1, 0.1) * out
        d.label("poke")
    now = np.vstack([parts[0][0], parts[1][0] @ R.T + at])
    perm = rng.permutation(len(home)) if d.bool() else np.arange(len(home))
    inv = np.argsort(perm)
    Q, t = (np.eye(3), np.zeros(3)) if d.bool() else (ref_matrix(d(quat())), d(vec(3, -3, 3)))
    eng = API.create_engine()
    P = eng.params
    P.resolution, P.envelope, P.use_spatial_hashing = 24, 0.2 * s, True
    P.contact_optimization_tolerance, P.contact_optimization_max_iterations = P.contact_optimization_tolerance * min(s, 1.0), 60
    others = d.pick([0, 0, 1])
    if others and d.bool():
        API.create_soft_body(eng, "far", home * s, tets.astype(np.int32))
    API.create_soft_body(eng, "f", home[perm] * s, inv[tets].astype(np.int32))
    if others and "far" not in eng.bodies:
        API.create_soft_body(eng, "far", home * s, tets.astype(np.int32))
    b = eng.bodies["f"]
    perm = np.array([np.argmin(((home - x) ** 2).sum(axis=1)) for x in b.x0 / s])  # nodes may be renumbered
    now = now[perm] @ Q.T + t
    for nm in eng.bodies:
        API.set_spatial_coordinates(eng, nm, now * s if nm == "f" else eng.bodies[nm].x0 + 40 * s)
    cps = contacts(eng)
    first = perm[b.surface[:, 0]] < n0                     # triangle of the first piece
    hit, maybe = set(), set()
    tri = now[b.surface]
    for i in np.flatnonzero(first):
        for j in np.flatnonzero(~first):
            c = crossing(tri[i], tri[j])
            if c:
                hit |= {(int(i), int(j)), (int(j), int(i))}
            if c is not False:
                maybe |= {(int(i), int(j)), (int(j), int(i))}
    d.nontrivial(len(hit) > 0)
    owner = np.array([o[0] for o in b.owners])
    seen = {}
    for c in cps:
        consistent(c, 1e-6 * s)
        ensure(c.bodyA is b and c.bodyB is b, "a contact with a distant body")
        on = [i for i in np.flatnonzero(owner == c.idx_tetB) if off_triangle(c.p / s, tri[i]) < 1e-5]
        ensure(any(i == x and owner[y] == c.idx_tetA for i in on for x, y in maybe), "contact of a body with itself where its surface does not cut itself", p=c.p / s, gap=c.g / s)
        ensure(c.g <= P.envelope * (1 + 1e-9), "contact beyond the envelope", g=c.g / s)
    cut = sorted({i for i, _ in hit})                      # the search on a triangle may end in a local minimum outside
    bare = [i for i in cut if not any(off_triangle(c.p / s, tri[i]) < 1e-5 and first[np.flatnonzero(owner == c.idx_tetA)[0]] != first[i] for c in cps)]
    ensure(len(bare) <= 0.5 * len(cut), "the surface of a body cuts itself but there is no contact on the triangles", triangles=tri[bare[:2]], cut=len(cut), bare=len(bare))


@sub(quick=25)
def any_size(d):
    """the same bodies in a world 256 times smaller or 16 times larger have the same contacts, scaled; non-trivial if there are several"""
    V, T = VM.create_beam(d.int(2, 3), 2, 2, 1.4, 1.0, 0.8)
    k = d.int(2, 3)
    rng = np.random.RandomState(d.int(0, 99999))           # generic poses: no ties between equally deep points
    poses = [(ref_matrix(unitq(rng)), rng.uniform(-0.8, 0.8, 3) + np.array([0.6 * i, 0, 0])) for i in range(k)]
    hashing, res = d.bool(), []
    for s in (1.0, d.pick([2.0 ** -8, 2.0 ** 4])):
        eng = API.create_engine()
        P = eng.params
        P.resolution, P.envelope, P.use_spatial_hashing = 10, 0.03 * s, hashing
        P.contact_optimization_tolerance *= s
        for i, (R, t) in enumerate(poses):
            API.create_soft_body(eng, f"b{i}", V * s, T)
            API.set_spatial_coordinates(eng, f"b{i}", eng.bodies[f"b{i}"].x0 @ R.T + s * t)
        out = []
        for c in contacts(eng):
            consistent(c, 1e-6 * s)
            out.append(((c.bodyA.name, c.bodyB.name), np.hstack([c.p / s, c.g / s, c.n])))
        res.append(out)
    d.nontrivial(len(res[0]) > 2)
    for P, Q, what in ((res[0], res[1], "vanishes"), (res[1], res[0], "appears")):
        far = [p for p in P if not any(p[0] == q[0] and np.abs(p[1] - q[1]).max() < 1e-3 for q in Q)]
        ensure(not far, "a contact %s when the world is scaled" % what, contact=far[:1], n=(len(res[0]), len(res[1])))


@sub(quick=40)
def jacobian(d):
    """the contact Jacobian maps nodal velocities to the relative velocity at the contact in its frame; non-trivial with contacts"""
    eng, a, b, off, R, t, gap = two_boxes(d, gap=d(num(-0.03, 0.0)), res=10)
    place(eng, a, b, off, R, t)
    rng = np.random.RandomState(d.int(0, 9999))
    for bd in (a, b):
        bd.u = rng.uniform(-1, 1, bd.x.shape)
    cps = contacts(eng)
    d.nontrivial(len(cps) > 0)
    J = SO.compute_jacobian_matrix(eng, {}, False)
    ensure(J.shape == (4 * len(cps), 3 * eng.number_of_nodes), "shape of the Jacobian")
    w = J.dot(SO.get_velocity_vector(eng).ravel())
    for k, c in enumerate(cps):
        rel = c.omegaB @ c.bodyB.u[c.bodyB.T[c.idx_tetB]] - c.omegaA @ c.bodyA.u[c.bodyA.T[c.idx_tetA]]
        wn = w[4 * k:4 * k + 4]
        close(wn[0], rel @ c.n, atol=1e-9, msg="normal velocity")
        close(np.linalg.norm(wn[1:3]), np.linalg.norm(rel - (rel @ c.n) * c.n), atol=1e-7, msg="sliding speed")
        close(wn[3], 0.0, atol=0, msg="spin row")
        lam = np.zeros(4 * len(cps))
        lam[4 * k:4 * k + 3] = rng.uniform(-1, 1, 3)
        f = (J.T @ lam).reshape(-1, 3)
        close(f.sum(axis=0), np.zeros(3), atol=1e-9, msg="contact impulse has a net force")
        x = SO.get_position_vector(eng)
        close(np.cross(x, f).sum(axis=0), np.zeros(3), atol=1e-6, msg="contact impulse has a net torque")
    mats = {}
    if d.bool():
        API.create_material(eng, "rubber")
        API.create_material(eng, "ice")
        for p, q in d.pick([[("rubber", "ice")], [("ice", "default"), ("default", "rubber")], [("rubber", "rubber")]]):
            mats[frozenset((p, q))] = d(num(0, 2))
            API.create_surfaces_interaction(eng, p, q, mats[frozenset((p, q))])
        for nm in "ab":
            API.set_material(eng, nm, d.pick(["rubber", "ice", "default"]))
    mu = SO.get_friction_coefficient_vector(eng)
    for k, c in enumerate(cps):
        key = frozenset((c.bodyA.material_description.name, c.bodyB.material_description.name))
        close(mu[k], mats.get(key, 1.0), atol=0, msg="friction coefficient of %s" % sorted(key))
    close(SO.get_largest_penetration_error(eng), max([0.0] + [-c.g for c in cps]), atol=0, msg="largest penetration")


if __name__ == "__main__":
    sys.exit(main("C35", ["gaps and normals are compared where the signed distance grid represents the box face exactly",
                          "self-collisions are judged between separate rigidly moved pieces of one body and, for whole deformed bodies, by the absence of false ones"]))
