"""C25: contact points of rigid bodies are sound (on one surface, with the other's distance and outward normal) and none is missed for clearly penetrating corners."""
from pbt import *
import itertools
import meshgen as mg
import rainbow.geometry.grid3 as GRID
import rainbow.simulators.prox_rigid_bodies.api as API
import rainbow.simulators.prox_rigid_bodies.collision_detection as CD


def boxmesh(d):
    return mg.box(d(pos(0.6, 2)), d(pos(0.6, 2)), d(pos(0.6, 2)))


def convex(d):
    if d.bool():
        return boxmesh(d)
    n = d.int(4, 9)
    base = np.array([[1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1]], float)
    P = [base[i] if i < 4 else d(unit()) * 1.6 for i in range(n)]
    return mg.hull(np.array(P) * 0.6)


def shared(d, meshes):
    """now and then two bodies get the same shape"""
    if d.int(0, 2) == 0:
        meshes[-1] = meshes[0]
        d.label("shared shape")
    return meshes


def make(d, meshes, env, res=14):
    eng = API.create_engine()
    eng.params.resolution, eng.params.envelope = res, env
    for i, (V, F) in enumerate(meshes):
        n = "abcd"[i]
        same = [m for m in "abcd"[:i] if meshes["abcd".index(m)] is meshes[i]]
        if not same:
            API.create_shape(eng, n, API.create_mesh(np.array(V), np.array(F)))
        API.create_rigid_body(eng, n)
        API.connect_shape(eng, n, same[0] if same else n)           # bodies of the same mesh share one shape
    return eng


def world(b):
    return np.asarray(b.shape.mesh.V) @ ref_matrix(b.q).T + b.r


def support_gap(Va, Vb, u):
    """distance to move b along u so that the slabs of a and b orthogonal to u just touch"""
    return (Va @ u).max() - (Vb @ u).min()


def place(d, eng, gap):
    """random orientations; the second body is put beside the first along a direction u so that the slabs overlap by -gap"""
    bs = list(eng.bodies.values())
    for b in bs:
        b.q = d(quat())
        b.r = d(vec(3, -2, 2))
    if d.int(0, 2) == 0:                                  # aligned bodies
        for b in bs[1:]:
            b.q = bs[0].q.copy()
        d.label("same orientation")
    for prev, b in zip(bs, bs[1:]):
        u = d(unit())
        if d.bool():                                      # rest on a face of the previous body
            V, F = world(prev), prev.shape.mesh.T
            f = F[d.int(0, len(F) - 1)]
            u = np.cross(V[f[1]] - V[f[0]], V[f[2]] - V[f[0]])
            u = u / np.linalg.norm(u)
            d.label("on a face")
        Va, Vb = world(prev), world(b)
        ca = Va.mean(axis=0)
        b.r = b.r + (ca - Vb.mean(axis=0))
        b.r = b.r - u * ((ca - Vb.mean(axis=0)) @ u)
        b.r = b.r + (ca - world(b).mean(axis=0)) * 0.0
        b.r = b.r + u * (support_gap(Va, world(b), u) + gap)


def run(eng):
    CD.run_collision_detection(eng, {}, False)
    return eng.contact_points


@sub(quick=70)
def contacts_are_sound(d):
    """every contact of touching bodies: unit normal, point on the surface of B, gap = signed distance to A (grid accuracy), no duplicates; non-trivial if there is a contact"""
    env = d(pos(0.02, 0.15))
    nb = d.int(2, 3)
    kinds = ("box", "hull", "lshape", "torus")
    meshes = [mg.closed_mesh(d, place=False, kinds=kinds) if d.int(0, 2) == 0 else convex(d) for _ in range(nb)]
    eng = make(d, shared(d, meshes), env)
    place(d, eng, d(num(-0.3, 0.1)))
    cps = run(eng)
    d.nontrivial(len(cps) > 0)
    seen = set()
    for cp in cps:
        A, B = cp.bodyA, cp.bodyB
        ensure(A is not B and A in eng.bodies.values() and B in eng.bodies.values(), "bodies of a contact")
        close(np.linalg.norm(cp.n), 1.0, atol=1e-9, msg="contact normal is not a unit vector")
        ensure(cp.g <= env + 1e-12, "contact beyond the envelope", gap=cp.g, envelope=env)
        k = (frozenset((A.name, B.name)), tuple(cp.p))
        ensure(k not in seen, "the same contact point is reported twice", p=cp.p)
        seen.add(k)
        VB, VA = world(B), world(A)
        ensure(mg.unsigned_distance(cp.p, VB, B.shape.mesh.T) < 1e-7, "contact point is not on the surface of body B", p=cp.p)
        g = A.shape.grid
        tol = 0.5 * np.linalg.norm(g.spacing) + 1e-9
        sd = mg.signed_distance(cp.p, VA, A.shape.mesh.T)
        ensure(abs(sd - cp.g) <= tol, "gap is not the signed distance to body A", gap=cp.g, distance=sd, grid_accuracy=tol)
        R = ref_matrix(A.q)
        x = R.T @ (cp.p - A.r)
        ok = False
        for e in itertools.product((0, 1e-9, -1e-9), repeat=3):
            n = R @ GRID.get_gradient(g, x + np.array(e))
            if np.linalg.norm(n) > 0 and np.linalg.norm(n / np.linalg.norm(n) - cp.n) < 1e-6:
                ok = True
                break
        ensure(ok, "normal is not the gradient of body A's distance field", n=cp.n)


@sub(quick=50)
def face_normals(d):
    """contacts near the middle of a face of a box: normal is that face's outward normal, gap the distance to its plane; non-trivial if such a contact exists"""
    a = np.array([d(pos(1.0, 2)), d(pos(1.0, 2)), d(pos(1.0, 2))])
    eng = make(d, [mg.box(*a), convex(d)], d(pos(0.02, 0.1)), 18)
    place(d, eng, -0.1)
    A, B = eng.bodies.values()
    n_ok = 0
    W = world(A)
    F = A.shape.mesh.T
    f = F[d.int(0, len(F) - 1)]
    m = np.cross(W[f[1]] - W[f[0]], W[f[2]] - W[f[0]])
    m /= np.linalg.norm(m)
    e = max(((i, j) for i in f for j in f), key=lambda p: np.linalg.norm(W[p[0]] - W[p[1]]))      # the hypotenuse: its middle is the face centre
    VB = world(B)
    B.r = B.r + (W[e[0]] + W[e[1]]) / 2 + d(num(-0.12, 0.02)) * m - VB[int(np.argmin(VB @ m))]
    c = W.mean(axis=0)
    for cp in run(eng):
        if cp.bodyA is not A:
            continue
        N = np.cross(W[F[:, 1]] - W[F[:, 0]], W[F[:, 2]] - W[F[:, 0]])
        N /= np.linalg.norm(N, axis=1)[:, None]
        dist = np.einsum("ij,ij->i", N, cp.p - W[F[:, 0]])
        i = int(np.argmax(dist))
        h = np.linalg.norm(A.shape.grid.spacing)
        others = dist[np.abs(N @ N[i]) < 0.5]
        if np.max(others) < -abs(dist[i]) - 2 * h:                     # the other faces are far
            n_ok += 1
            close(cp.n, N[i], atol=1e-6, msg="contact normal over a face")
            close(cp.g, dist[i], atol=1e-6, msg="gap over a face")
    d.nontrivial(n_ok > 0)


@sub(quick=70)
def separated_bodies(d):
    """bodies separated by more than the envelope (plus grid accuracy) have no contacts, also when they were in contact before; non-trivial if they were"""
    env = d(pos(0.02, 0.1))
    eng = make(d, [convex(d), convex(d)], env)
    place(d, eng, -0.1)
    before = len(run(eng))
    d.nontrivial(before > 0)
    A, B = eng.bodies.values()
    h = max(0.5 * np.linalg.norm(x.shape.grid.spacing) for x in (A, B))
    u = d(unit())
    B.r = B.r + u * (support_gap(world(A), world(B), u) + env + h + 1e-6 + d(pos(1e-3, 1)))
    ensure(len(run(eng)) == 0, "separated bodies have contacts", gaps=[c.g for c in eng.contact_points])


@sub(quick=60)
def penetrating_corners(d):
    """a corner of one convex body clearly inside the other gives a penetrating contact for that pair; non-trivial if a corner is inside by more than a cell diagonal"""
    env = d(pos(0.02, 0.1))
    eng = make(d, shared(d, [convex(d), convex(d)]), env, 26)
    place(d, eng, d(num(-0.3, -0.02)))
    A, B = eng.bodies.values()
    for b in (A, B):
        API.set_body_type(eng, b.name, d.pick(["free", "free", "fixed"]) if b is A or not A.is_fixed else "free")
    if d.bool():                                                       # push corner through the middle of a face
        Va, Vb = world(A), world(B)
        F = A.shape.mesh.T
        f = F[d.int(0, len(F) - 1)]
        n = np.cross(Va[f[1]] - Va[f[0]], Va[f[2]] - Va[f[0]])
        n /= np.linalg.norm(n)
        j = int(np.argmin(Vb @ n))
        w = np.array([1.0, 1, 1]) / 3
        B.r = B.r + (w @ Va[f] - d(pos(0.1, 0.4)) * n) - Vb[j]
        d.label("corner through a face")
    Va, Vb = world(A), world(B)
    h = max(np.linalg.norm(x.shape.grid.spacing) for x in (A, B))
    depth = min([mg.in_hull(p, Va, A.shape.mesh.T) for p in Vb] + [mg.in_hull(p, Vb, B.shape.mesh.T) for p in Va])
    cps = run(eng)
    d.nontrivial(depth < -h)
    if depth < -h:
        ensure(len(cps) > 0, "penetrating bodies have no contact", depth=depth, cell=h)
        ensure(min(c.g for c in cps) < 0, "no contact of penetrating bodies has a negative gap", depth=depth, cell=h, gaps=[c.g for c in cps])


def contact_key(c):
    return (c.bodyA.name, c.bodyB.name) + tuple(c.p) + tuple(c.n) + (c.g,)


@sub(quick=120)
def hovering_tips(d):
    """one or two needle tips (maybe very close to each other) over or in the middle of a slab's face: a contact for each tip within the envelope, none for the others; either body fixed; non-trivial if a tip is in the envelope but outside the slab"""
    env = d.pick([0.0, d(pos(1e-4, 0.02)), d(pos(0.02, 0.15))])
    rng = np.random.RandomState(d.int(0, 9999))
    n = d.int(1, 2)
    apart = d.pick([0.004, 0.02, 0.2])
    tip, V, F = [], [], []
    for k in range(n):
        X, T = mg.hull(np.array([[0, 0, 0], [.1, 1.5, .0], [-.1, 1.5, .1], [0, 1.5, -.1]]) * [0.01 if apart < 0.1 else 1, 1, 1] + np.array([k * apart, 0, 0]))
        tip.append(X[np.argmin(X[:, 1])])
        F.append(np.asarray(T) + 4 * k)
        V.append(X)
    V, F = np.vstack(V), np.vstack(F)
    slab = mg.box(3.0, 1.0, 3.0)
    flip = d.bool()
    eng = make(d, [(V, F), slab] if flip else [slab, (V, F)], env, 16)
    S, N = (eng.bodies["b"], eng.bodies["a"]) if flip else (eng.bodies["a"], eng.bodies["b"])
    for b in (S, N):
        API.set_body_type(eng, b.name, d.pick(["free", "fixed"]))
    gap = d(num(-0.05, 0.05)) if d.bool() else d.pick([0.5, 0.9, 1.1]) * env
    API.set_orientation(eng, S.name, np.array([1.0, 0, 0, 0]), True)
    API.set_orientation(eng, N.name, np.array([1.0, 0, 0, 0]), True)
    at = np.array([rng.uniform(-0.5, 0.5), 0.5 + gap, rng.uniform(-0.5, 0.5)])
    API.set_position(eng, S.name, np.zeros(3), True)
    API.set_position(eng, N.name, at, True)
    M, s_ = np.eye(3), np.zeros(3)
    if d.bool():                                                       # the same scene somewhere else
        R, s_ = d(quat()), d(vec(3, -5, 5))
        M = ref_matrix(R)
        for b in (S, N):
            b.r, b.q = ref_matrix(R) @ b.r + s_, ref_qmul(R, b.q)
    cps = run(eng)
    # only the tips are near the slab: contacts where the needle is body B
    loc = [M.T @ (cp.p - s_) for cp in cps if cp.bodyB is N]
    want = [np.array([at[0] + t[0] - tip[0][0], 0.5 + gap, at[2] + t[2] - tip[0][2]]) for t in tip]
    W = world(N)
    P = np.array([M.T @ (w - s_) for w in W])
    want = [P[int(np.argmin(np.linalg.norm(P - w, axis=1)))] for w in want]
    if abs(gap - env) < 1e-6:
        return d.nontrivial(False)
    d.nontrivial(0 < gap < env)
    for w in want:
        ensure(abs(w[1] - 0.5 - gap) < 1e-9, "harness: a tip is not where it should be")
        hit = any(np.linalg.norm(w - x) < 1e-6 for x in loc)
        if gap < env:
            ensure(hit, "no contact at a tip within the envelope", gap=gap, envelope=env, tips=len(want), contacts=len(cps))
        else:
            ensure(not cps, "contacts although everything is beyond the envelope", gap=gap, envelope=env)


@sub(quick=40)
def pairs_are_independent(d):
    """contacts of a world are exactly the contacts of its body pairs taken alone; non-trivial if two pairs touch"""
    env = d(pos(0.02, 0.1))
    meshes = [convex(d) for _ in range(d.int(3, 4))]
    eng = make(d, shared(d, meshes), env, 10)
    place(d, eng, d(num(-0.2, 0.05)))
    full = sorted(map(contact_key, run(eng)))
    bodies = dict(eng.bodies)
    got, touching = [], 0
    for x, y in itertools.combinations(bodies, 2):
        eng.bodies = {x: bodies[x], y: bodies[y]}
        part = list(map(contact_key, run(eng)))
        touching += bool(part)
        got += part
    d.nontrivial(touching >= 2)
    ensure(sorted(got) == full, "contacts of a body pair depend on the other bodies", alone=len(got), together=len(full))
    # running detection again on the same world changes nothing
    eng.bodies = bodies
    ensure(sorted(map(contact_key, run(eng))) == full, "repeated detection gives other contacts")


@sub(quick=60)
def order_of_bodies(d):
    """the contact points of a world do not depend on the order in which its bodies were added, also if they share shape and orientation; non-trivial if there are contacts"""
    env = d(pos(0.02, 0.1))
    meshes = [convex(d) for _ in range(d.int(2, 3))]
    if d.bool():
        meshes[-1] = meshes[0]
        d.label("shared shape")
    eng = make(d, meshes, env, 10)
    place(d, eng, d(num(-0.3, 0.05)))

    def result():
        return sorted((tuple(np.round(c.p, 9) + 0.0), round(float(c.g), 9) + 0.0, tuple(sorted([c.bodyA.name, c.bodyB.name]))) for c in run(eng))
    a = result()
    names = list(eng.bodies)
    k = d.int(1, len(names) - 1)
    eng.bodies = {n: eng.bodies[n] for n in (names[::-1] if d.bool() else names[k:] + names[:k])}
    for i, b in enumerate(eng.bodies.values()):
        b.idx = i
    b = result()
    d.nontrivial(len(a) > 0)
    ensure([x[0] for x in a] == [x[0] for x in b], "contact positions depend on the order of the bodies", one=len(a), other=len(b))
    ensure([x[2] for x in a] == [x[2] for x in b], "contact pairs depend on the order of the bodies")


@sub(quick=40)
def history_is_irrelevant(d):
    """bodies (free and fixed, with and without velocities) that are moved between detections: contacts equal those of a fresh world with the same poses; non-trivial if bodies touch before and after the move"""
    env = d(pos(0.02, 0.1))
    meshes = [convex(d) for _ in range(d.int(2, 3))]
    eng = make(d, shared(d, meshes), env, 10)
    for b in eng.bodies.values():
        API.set_body_type(eng, b.name, d.pick(["free", "free", "fixed"]))
        b.v, b.w = (np.zeros(3), np.zeros(3)) if d.bool() else (d(vec(3, -1, 1)), d(vec(3, -1, 1)))
    place(d, eng, d(num(-0.2, 0.0)))
    first = len(run(eng))
    for step in range(d.int(1, 2)):
        if d.bool():                                                   # all bodies move together, keeping their contacts
            s, R = d(vec(3, -20, 20)), d(quat())
            for b in eng.bodies.values():
                b.r, b.q = ref_matrix(R) @ b.r + s, ref_qmul(R, b.q)
            d.label("rigid motion of the world")
        else:
            place(d, eng, d(num(-0.2, 0.05)))
        again = sorted(map(contact_key, run(eng)))
    new = make(d, meshes, env, 10)
    for n, b in eng.bodies.items():
        new.bodies[n].r, new.bodies[n].q, new.bodies[n].is_fixed = np.array(b.r), np.array(b.q), b.is_fixed
    fresh = sorted(map(contact_key, run(new)))
    d.nontrivial(first > 0 and len(fresh) > 0)
    ensure(again == fresh, "contacts depend on where the bodies were before", now=len(again), fresh=len(fresh))


@sub(quick=60)
def shared_corner(d):
    """a cube whose corner touches two or three other boxes (axis aligned, dyadic coordinates): contacts of each pair are those of the pair alone; non-trivial if two pairs share a contact position"""
    env = 0.0625
    side = d.pick([0.5, 1.0, 2.0])
    eng = make(d, [mg.box(side, side, side)] + [mg.box(4.0, 1.0, 4.0), mg.box(1.0, 4.0, 4.0), mg.box(4.0, 4.0, 1.0)], env, 9)
    depth = d.pick([0.0, 0.0, 0.03125])
    keep = ["a"] + [x for x in "bcd" if d.int(0, 3) > 0]
    at = dict(a=np.full(3, side / 2 - depth) + d.pick([0.0, 0.5]) * np.eye(3)[d.int(0, 2)], b=np.array([0, -0.5, 0]), c=np.array([-0.5, 0, 0]), d=np.array([0, 0, -0.5]))
    for n in list(eng.bodies):
        API.set_orientation(eng, n, np.array([1.0, 0, 0, 0]), True)
        API.set_position(eng, n, at[n], True)
        if n not in keep:
            del eng.bodies[n]
    for k, b in enumerate(eng.bodies.values()):
        b.idx = k
    full = sorted(map(contact_key, run(eng)))
    bodies, got = dict(eng.bodies), []
    where = {}
    for c in run(eng):
        where.setdefault(tuple(c.p), set()).add(frozenset((c.bodyA.name, c.bodyB.name)))
    for x, y in itertools.combinations(bodies, 2):
        eng.bodies = {x: bodies[x], y: bodies[y]}
        part = list(map(contact_key, run(eng)))
        got += part
        for k in part:
            where.setdefault(k[2:5], set()).add(frozenset(k[:2]))
    d.nontrivial(any(len(v) > 1 for v in where.values()))
    ensure(sorted(got) == full, "contacts of a body pair depend on the other bodies", alone=len(got), together=len(full))


@sub(quick=40)
def resting_box(d):
    """a box resting on (slightly in) a larger face: its face is in contact with gap = depth and the normal of the support; non-trivial if a contact is in the middle of the face"""
    eng = make(d, [mg.box(3.0, 1.0, 3.0), mg.box(d(pos(0.6, 1.2)), d(pos(0.6, 1.2)), d(pos(0.6, 1.2)))], d(pos(0.02, 0.08)), 16)
    A, B = eng.bodies["a"], eng.bodies["b"]
    Q_ = d(quat())
    A.q, A.r = Q_, d(vec(3, -3, 3))
    RA = ref_matrix(Q_)
    V, F = world(A), A.shape.mesh.T
    # largest face: thin direction of the slab is the direction of least extent
    fn = np.cross(V[F[:, 1]] - V[F[:, 0]], V[F[:, 2]] - V[F[:, 0]])
    i = int(np.argmax(np.linalg.norm(fn, axis=1)))
    n = fn[i] / np.linalg.norm(fn[i])
    # put B with one of its faces parallel to n, turned about n
    VB = np.asarray(B.shape.mesh.V)
    FB = B.shape.mesh.T
    f = FB[d.int(0, len(FB) - 1)]
    m = np.cross(VB[f[1]] - VB[f[0]], VB[f[2]] - VB[f[0]])
    m /= np.linalg.norm(m)
    t = np.cross(m, [1.0, 0.3, 0.2]); t /= np.linalg.norm(t)
    M = np.column_stack([t, np.cross(m, t), m])                        # m is z
    s = np.cross(n, [0.2, 1.0, 0.3]); s /= np.linalg.norm(s)
    ang = d(num(0, 6.28))
    s2 = np.cos(ang) * s + np.sin(ang) * np.cross(n, s)
    N = np.column_stack([s2, -np.cross(n, s2), -n])
    R = N @ M.T
    w = np.sqrt(max(0.0, 1 + np.trace(R))) / 2
    from scipy.spatial.transform import Rotation
    x = Rotation.from_matrix(R).as_quat()
    B.q = np.array([x[3], x[0], x[1], x[2]])
    depth = d(pos(0.001, 0.05))
    top = (V @ n).max()
    B.r = np.zeros(3)
    low = (world(B) @ n).min()
    c = V.mean(axis=0)
    side = d(num(-0.4, 0.4)) * s + d(num(-0.4, 0.4)) * np.cross(n, s)
    B.r = c - (c @ n) * n + side + n * (top - low - depth)
    cps = run(eng)
    on = [cp for cp in cps if cp.bodyA is A]
    ensure(on, "a box resting in a face has no contact with it")
    h = np.linalg.norm(A.shape.grid.spacing)
    half = np.ptp(np.asarray(A.shape.mesh.V), axis=0) / 2
    thin = int(np.argmin(half))

    def central(p):
        x = np.abs(RA.T @ (p - A.r))
        return all(x[i] < half[i] - h - depth for i in range(3) if i != thin)
    on = [cp for cp in on if central(cp.p)]
    d.nontrivial(len(on) > 0)
    if not on:
        return
    for cp in on:
        if abs(cp.p @ n - (top - depth)) < 1e-9:
            close(cp.g, -depth, atol=1e-4, msg="gap of a resting contact")
            close(cp.n, n, atol=1e-4, msg="normal of a resting contact")
    ensure(min(cp.g for cp in on) < -depth + 1e-4, "no contact of the resting face has its depth", depth=depth, gaps=[c.g for c in on])


if __name__ == "__main__":
    sys.exit(main("C25", ["Signed distance grids of 10..18 nodes per axis; envelopes 0.02..0.15; shapes of size 0.6..3."]))
