"""C42: scene generators build what their parameters describe: counts, dimensions, mass, materials, no overlaps, standing structures, rigid placement."""
from pbt import *
import os
import scenegen as sc
os.chdir(os.environ["RAINBOW_REPO"])              # scenes read their meshes from ./data
import rainbow.simulators.prox_rigid_bodies.api as API
import rainbow.simulators.prox_rigid_bodies.scenes as SC
from rainbow.simulators.prox_rigid_bodies.scenes.create_gear_train import GearFactory
import rainbow.geometry.surface_mesh as MESH
import rainbow.math.quaternion as Q

I3, E = np.zeros(3), np.array([1.0, 0, 0, 0])


def engine():
    e = API.create_engine()
    e.params.resolution = 3
    API.create_surfaces_interaction(e, "stone", "default", 0.1, np.ones(3))
    return e


def draw(d, kinds):
    """a generator, its parameters (without placement), the expected number of bodies and the box it must fill (half width x, height, half depth z)"""
    k = d.pick(kinds)
    d.label(k)
    p = {}
    if k == "pillar":
        p = dict(width=d(pos(0.3, 3)), height=d(pos(1, 8)), depth=d(pos(0.3, 3)), stones=d.size(1, 5, 16))
        p["depth"] = p["width"] * d(num(0.9, 1.5))
        n, box = 4 + p["stones"], (p["width"] / 2, p["height"], p["depth"] / 2)
    elif k == "arch":
        w = d(pos(0.5, 4))
        p = dict(width=w, height=w / 2 + d(pos(0.2, 4)), depth=d(pos(0.2, 2)), pier_stones=d.size(1, 5, 14), arch_stones=d.pick([3, 5, 7, 9, 11, 15, 23]))
        n, box = 2 * p["pier_stones"] + p["arch_stones"], (w / 2 * 1.2, p["height"] * 1.2, p["depth"] / 2)
    elif k in ("dome", "tower", "pantheon", "colosseum"):
        ri = d(pos(1, 6))
        ro = ri + d(pos(0.2, 1.5))
        seg = d.int(5, 13)
        p = dict(outer_radius=ro, inner_radius=ri)
        if k in ("pantheon", "colosseum"):
            ro = max(ro, 1.05 * ri / np.cos(np.pi / seg))               # thinner polygonal walls do not carry what stands on them
        p["outer_radius"] = ro
        R = ro / np.cos(np.pi / seg)
        if k == "dome":
            p.update(layers=d.size(1, 5, 9), segments=seg)
            n, box = p["layers"] * seg, (ro, ro, ro)
        elif k == "tower":
            p.update(height=d(pos(0.5, 9)), layers=d.size(1, 5, 12), segments=seg, use_cubes=d.bool(), safety_factor=d(num(0.7, 0.99)))
            n, box = p["layers"] * seg, (R, p["height"], R)
        elif k == "pantheon":
            p.update(height=ro + d(pos(0.5, 5)), layers=d.int(1, 3), segments=seg)
            n, box = 2 * p["layers"] * seg, (R, p["height"], R)
        else:
            p.update(height=d(pos(4, 20)), levels=d.int(1, 2), arches=seg)
            p["height"] = p["levels"] * (2 * np.tan(np.pi / seg) * ri / 2 + d(pos(0.5, 3))) / 0.9      # arches must be higher than half their width
            n, box = p["levels"] * (seg * 19 + seg), (R * 1.02, p["height"], R * 1.02)
    elif k == "box_stack":
        p = dict(box_width=d(pos(0.2, 3)), box_height=d(pos(0.2, 3)), box_depth=d(pos(0.2, 3)), K_boxes=d.size(1, 7, 30))
        r = np.hypot(p["box_width"], p["box_depth"]) / 2
        n, box = p["K_boxes"], (r, p["box_height"] * p["K_boxes"], r)
    elif k == "temple":
        p = dict(I_pillars=d.int(4, 5), K_pillars=d.pick([4, 7, 10]), pillar_width=1.0, pillar_height=d(pos(2, 5)), pillar_depth=1.0, pillar_stones=d.int(1, 2))
        s = d(pos(0.5, 2))
        p.update(pillar_width=s, pillar_depth=s, pillar_height=p["pillar_height"] * s)
        W, D = (2 * p["I_pillars"] - 1) * s, (2 * p["K_pillars"] - 1) * s
        n, box = None, (W / 2 + 3 * s, 2.5 * p["pillar_height"], D / 2 + 3 * s)
    elif k == "cube_hinge_chain":
        p = dict(cube_edge_length=d(pos(0.2, 10)), K_cubes=d.size(2, 6, 25))
        n, box = p["K_cubes"], None
    elif k == "chainmail":
        R = d(pos(0.5, 3))
        f = d(num(0.08, 0.22))
        s = 1.03 * np.sqrt(2) * f / (1 - 2 * f)                          # less stretch lets the four rings inside a ring collide
        p = dict(major_radius=R, minor_radius=R * f, columns=d.int(1, 2), rows=d.int(1, 3), stretch=s + (1 - s) * d(num(0, 1)), pinned=d.bool())
        c, r = p["columns"], p["rows"]
        n, box = (c + 1) * (r + 1) + c * (r + 1) + (c + 1) * r, None
    return k, p, n, box


PLACED = ("pillar", "arch", "dome", "tower", "pantheon", "colosseum")


def build(eng, k, p, r=I3, q=E, density=1.0, material="default"):
    f = getattr(SC, "create_" + k)
    if k in PLACED:
        p = dict(p, r=r, q=q)
    return f(eng, density=density, material_name=material, **p)


def judge_bodies(eng, names, before, density, material, extra=0):
    """names are exactly the new bodies, in the given material, with the mass of their mesh"""
    ensure(isinstance(names, list) and all(isinstance(n, str) for n in names), "result is not a flat list of names", got=[type(n) for n in names][:3])
    ensure(len(set(names)) == len(names), "a body is listed twice")
    new = [n for n in eng.bodies if n not in before]
    ensure(set(names) == set(new), "result does not list exactly the new bodies", missing=sorted(set(new) - set(names))[:4], extra=sorted(set(names) - set(new))[:4])
    vols = {}
    for n in names:
        b = eng.bodies[n]
        ensure(b.shape is not None and eng.shapes.get(b.shape.name) is b.shape, "body without registered shape", body=n)
        ensure(b.material == material, "material of a body", body=n, got=b.material)
        v = vols.setdefault(b.shape.name, sc.volume(b.shape.mesh.V, b.shape.mesh.T))
        ensure(v > 0, "shape is inside out", body=n)
        close(float(b.mass), density * v, rtol=1e-6, msg="mass of " + n)
        close(float(np.linalg.norm(b.q)), 1.0, atol=1e-9, msg="unit orientation")
        close(b.v, I3, atol=0, msg="initial velocity")
        close(b.w, I3, atol=0, msg="initial spin")


def judge_shaft(p, W):
    """base, shaft stones and echinus of a pillar are cones that meet flush, and the shaft tapers in a straight line"""
    R = []
    for w in W:
        lo, hi = w[:, 1].min(), w[:, 1].max()
        rad = [np.linalg.norm(w[np.abs(w[:, 1] - y) < 1e-9 * p["height"]][:, [0, 2]], axis=1).max() for y in (lo, hi)]
        R.append([lo, hi] + rad)
    R = np.array(sorted(R))[1:-1]                     # without socle and abacus
    tol = 1e-7 * p["height"]
    close(R[1:, 0], R[:-1, 1], atol=tol, msg="stones of the pillar rest on each other")
    close(R[1:, 2], R[:-1, 3], atol=1e-7 * p["width"], msg="stones of the pillar meet flush")
    S = R[1:-1]
    y, r = np.append(S[:, 0], S[-1, 1]), np.append(S[:, 2], S[-1, 3])
    close(r, r[0] + (r[-1] - r[0]) * (y - y[0]) / (y[-1] - y[0]), atol=1e-7 * p["width"], msg="the shaft tapers in a straight line")
    close(np.diff(y), np.full(p["stones"], (y[-1] - y[0]) / p["stones"]), atol=tol, msg="equally high shaft stones")


def judge_symmetry(W, M, size, what):
    """the stones, moved by M, are the stones"""
    box = lambda w: np.concatenate([w.mean(axis=0), w.min(axis=0), w.max(axis=0)])
    A = np.array([box(w) for w in W])
    for w in W:
        ensure(np.abs(A - box(w @ M.T)).max(axis=1).min() <= 1e-6 * size, "building is not symmetric " + what, stone=w.mean(axis=0))


def stone_volumes(k, p):
    """volumes of the stones that fill an arch, a dome or a tower without gaps (but for the safety factor of a tower)"""
    if k == "arch":
        R, t, n = p["width"] / 2, p["width"] / 5, p["arch_stones"]
        pier = t * p["depth"] * (p["height"] - R) / p["pier_stones"]
        return [pier] * (2 * p["pier_stones"]) + [np.sin(np.pi / n) / 2 * (R ** 2 - (R - t) ** 2) * p["depth"]] * n
    ro, ri, n, m = p["outer_radius"], p["inner_radius"], p["segments"], p["layers"]
    if k == "pantheon":
        return stone_volumes("tower", dict(p, height=p["height"] - ro, use_cubes=False, safety_factor=p.get("safety_factor", 0.99))) + stone_volumes("dome", p)
    if k == "tower":
        h, w = p["height"] / m, 2 * np.tan(np.pi / n) * p["safety_factor"]
        return [w * h * (ro - ri) * (ri if p["use_cubes"] else (ri + ro) / 2)] * (n * m)
    out = []
    for l in range(m):                                # a stone lies between two quadrilaterals inscribed in the spheres
        f = [np.pi / 2 / (m + 1) * (l + i) for i in (0, 1)]
        c = [np.array([np.cos(f[i]) * np.cos(a), np.sin(f[i]), np.cos(f[i]) * np.sin(a)]) for i, a in ((0, 0), (0, 2 * np.pi / n), (1, 2 * np.pi / n), (1, 0))]
        cone = sum(abs(np.dot(c[0], np.cross(c[i], c[i + 1]))) for i in (1, 2)) / 6
        out += [cone * (ro ** 3 - ri ** 3)] * n
    return out


def building(d, kind):
    k, p, n, box = draw(d, [kind])
    eng = engine()
    before = set(eng.bodies)
    density, mat = d(pos(0.1, 50)), d.pick(["default", "stone"])
    names = build(eng, k, p, density=density, material=mat)
    judge_bodies(eng, names, before, density, mat)
    if n is not None:
        ensure(len(names) == n, "number of bodies", have=len(names), want=n)
    for m in names:
        ensure(not eng.bodies[m].is_fixed, "stones are free", body=m)
    W = [sc.world(eng.bodies[m]) for m in names]
    allv = np.vstack(W)
    size = max(box)
    tol = 1e-7 * size
    lo, hi = allv.min(axis=0), allv.max(axis=0)
    ensure((lo >= -np.array([box[0], 0, box[2]]) - tol).all() and (hi <= np.array(box) + tol).all(), "building exceeds its dimensions", lo=lo, hi=hi, box=box)
    close(float(lo[1]), 0.0, atol=tol, msg="building stands on its base")
    if k in ("pillar", "tower", "box_stack", "colosseum"):
        close(float(hi[1]), box[1], atol=tol, msg="height of the building")
    if k in ("pillar", "arch"):
        close([float(lo[0]), float(hi[0]), float(lo[2]), float(hi[2])], [-p["width"] / 2, p["width"] / 2, -p["depth"] / 2, p["depth"] / 2], atol=0.06 * box[0] if k == "arch" else tol,
              msg="footprint")
    if k == "pillar":
        judge_shaft(p, W)
    if k == "arch":
        outer = p["width"] / 2
        top = p["height"] - outer + outer / np.cos(np.pi / p["arch_stones"] / 2) * np.cos(np.pi / p["arch_stones"] / 2)
        ensure(p["height"] - outer * (1 - np.cos(np.pi / p["arch_stones"] / 2)) - tol <= hi[1] <= top + tol, "height of the arch", got=hi[1], height=p["height"])
    if k in ("dome", "tower"):
        rad = np.linalg.norm(allv if k == "dome" else allv[:, [0, 2]], axis=1)
        ensure((rad >= p["inner_radius"] * (1 if k == "dome" else 1) - tol).all(), "stones inside the inner radius", got=rad.min(), want=p["inner_radius"])
        ensure((rad <= (box[0]) + tol).all(), "stones outside the outer radius")
    turn = p["segments"] if k in ("dome", "tower", "pantheon") else p["arches"] if k == "colosseum" else 0
    if turn:
        judge_symmetry(W, ref_rodrigues(2 * np.pi / turn, np.array([0, 1.0, 0])), size, "by a turn of one segment")
    if k in ("arch", "pillar", "temple"):
        judge_symmetry(W, np.diag([-1.0, 1, 1]), size, "by left and right")
        if k != "temple" or p["K_pillars"] > 4:      # the roof of the shortest temple ends half a pillar before its back
            judge_symmetry(W, np.diag([1.0, 1, -1]), size, "by front and back")
    C = [sc.Convex(w) for w in W]
    if k in ("tower", "dome", "arch", "pantheon"):
        close(sorted(c.volume for c in C), sorted(stone_volumes(k, p)), rtol=1e-6, msg="volumes of the stones")
    links = {i: set() for i in range(len(C))}
    gap = 1e-6 * size
    if k == "colosseum":                             # the flat top of an arch lies below its circumscribed height
        gap += np.tan(np.pi / p["arches"]) * p["inner_radius"] * (1 - np.cos(np.pi / 18))
    for i, j, dep in sc.pair_depths(C, 2 * gap):
        ensure(dep <= 1e-6 * size, "stones overlap", first=names[i], second=names[j], depth=dep)
        if dep > -gap:
            links[i].add(j)
            links[j].add(i)
    seen = [i for i in range(len(C)) if C[i].lo[1] <= 1e-6 * size]
    reached = set(seen)
    while seen:
        for j in links[seen.pop()]:
            if j not in reached:
                reached.add(j)
                seen.append(j)
    ensure(len(reached) == len(C), "stones float in the air", floating=[names[i] for i in range(len(C)) if i not in reached][:4])
    d.nontrivial(len(names) >= 5)


for _k, _n in (("pillar", 16), ("arch", 20), ("dome", 14), ("tower", 20), ("pantheon", 10), ("box_stack", 10), ("colosseum", 6), ("temple", 12)):
    sub("building_" + _k, quick=_n, thorough=10 * _n, rule=f"{_k}: bodies, dimensions, mass and material equal the parameters; stones fill the form, do not overlap, and all rest on each other "
        "down to the ground; non-trivial with five or more bodies")(lambda d, k=_k: building(d, k))


@sub(quick=60, thorough=800)
def placement(d):
    """building at a pose gives the building at the origin moved rigidly, body by body; non-trivial always (random pose)"""
    k, p, n, box = draw(d, list(PLACED[:5]) * 3 + ["colosseum"])
    r, q = d(vec(3, -10, 10)), d(quat())
    r0, q0 = r.copy(), q.copy()
    a, b = engine(), engine()
    A, B = build(a, k, p), build(b, k, p, r, q)
    close(r, r0, atol=0, msg="position argument changed")
    close(q, q0, atol=0, msg="orientation argument changed")
    ensure(len(A) == len(B), "number of bodies depends on the pose")
    R = ref_matrix(q)
    for x, y in zip(A, B):
        close(sc.world(b.bodies[y]), sc.world(a.bodies[x]) @ R.T + r, atol=1e-7, msg="placed geometry")
        close(float(b.bodies[y].mass), float(a.bodies[x].mass), rtol=1e-9, msg="mass")
        close(b.bodies[y].inertia, a.bodies[x].inertia, rtol=1e-6, atol=1e-12, msg="inertia")


@sub(quick=60, thorough=800)
def lattices_and_ground(d):
    """lattices place I*J*K bodies at the cell centres cycling through the shapes, each turned as asked; grounds are fixed slabs with their top at the given pose; non-trivial with two or more bodies"""
    eng = engine()
    r, q = d(vec(3, -10, 10)), d(quat())
    density, mat = d(pos(0.1, 50)), d.pick(["default", "stone"])
    R = ref_matrix(q)
    if d.pick([0, 0, 0, 1]):
        d.label("ground")
        SC.create_ground(eng, r, q, density, mat)
        names = list(eng.bodies)
        judge_bodies(eng, names, set(), density, mat)
        ensure(len(names) == 1 and eng.bodies[names[0]].is_fixed, "one fixed ground")
        L = (sc.world(eng.bodies[names[0]]) - r) @ R
        close(float(L[:, 1].max()), 0.0, atol=1e-6, msg="top of the ground")
        ensure(L[:, 1].min() < -0.5 and np.allclose(L.mean(axis=0)[[0, 2]], 0, atol=1e-6) and np.ptp(L[:, 0]) > 10 and np.ptp(L[:, 2]) > 10, "shape of the ground")
        return
    d.label("lattice")
    shapes = []
    for s in range(d.int(1, 3)):
        V, T = MESH.create_box(0.1 + 0.1 * s, 0.2, 0.3)
        API.create_shape(eng, f"s{s}", API.create_mesh(V, T))
        shapes.append(f"s{s}")
    I, J, K = d.size(1, 4, 7), d.size(1, 4, 7), d.size(1, 4, 7)
    w, h, dd = d(pos(0.5, 9)), d(pos(0.5, 9)), d(pos(0.5, 9))
    mode = d.pick(["random", "given", "identity"])
    qb = d(quat()) if mode == "given" else None
    np.random.seed(d.int(0, 999))
    names = SC.create_lattice(eng, r, q, shapes, w, h, dd, I, J, K, density, mat, use_random_orientation=mode == "random", q_body=qb)
    judge_bodies(eng, names, set(), density, mat)
    ensure(len(names) == I * J * K, "number of bodies")
    want = {}
    for i in range(I):
        for j in range(J):
            for k in range(K):
                want[i, j, k] = r + R @ np.array([(i + 0.5) * w / I, (j + 0.5) * h / J, (k + 0.5) * dd / K])
    got = np.array([eng.bodies[n].r for n in names])
    W = np.array(list(want.values()))
    for n, x in zip(names, got):
        dist = np.linalg.norm(W - x, axis=1)
        cell = list(want)[int(dist.argmin())]
        ensure(dist.min() < 1e-8, "body is not at a cell centre", body=n)
        ensure(eng.bodies[n].shape.name == shapes[sum(cell) % len(shapes)], "shape of the cell", cell=cell)
        ensure(not eng.bodies[n].is_fixed, "lattice bodies are free")
        if mode != "random":
            close(ref_matrix(eng.bodies[n].q), R @ (ref_matrix(qb) if qb is not None else np.eye(3)), atol=1e-9, msg="orientation in the lattice")
        W[int(dist.argmin())] = 1e9
    if mode == "random" and len(names) > 1:
        qs = np.array([eng.bodies[n].q for n in names])
        ensure(np.ptp(np.abs(qs @ qs[0])) > 1e-6, "random orientations are all the same")
    d.nontrivial(len(names) > 1)


@sub(quick=40, thorough=500)
def chains_and_mail(d):
    """hinge chains link neighbours about their common horizontal edge axis with the first link fixed; rings of chainmail interlock without touching, pinned at the four corners exactly if asked; non-trivial always"""
    k, p, n, box = draw(d, ["cube_hinge_chain", "chainmail"])
    eng = engine()
    density, mat = d(pos(0.1, 50)), d.pick(["default", "stone"])
    names = build(eng, k, p, density=density, material=mat)
    judge_bodies(eng, names, set(), density, mat)
    ensure(len(names) == n, "number of bodies", have=len(names), want=n)
    if k == "cube_hinge_chain":
        ensure([eng.bodies[m].is_fixed for m in names] == [True] + [False] * (n - 1), "only the first link is fixed")
        ensure(len(eng.hinges) == n - 1, "number of hinges")
        pairs = sorted((h.parent.name, h.child.name) for h in eng.hinges.values())
        ensure(pairs == sorted(zip(names, names[1:])), "hinges link neighbours", have=pairs)
        C = [sc.Convex(sc.world(eng.bodies[m])) for m in names]
        for i, j, dep in sc.pair_depths(C, 0.0):
            ensure(dep <= 1e-9, "links overlap", depth=dep)
        for m in names:
            X = sc.world(eng.bodies[m])
            close(float(np.ptp(X[:, 0])), np.sqrt(2) * p["cube_edge_length"], rtol=1e-9, msg="links stand on their edges")
        for h in eng.hinges.values():
            judge_hinge(h, np.array([0, 0, 1.0]), p["cube_edge_length"])
            at = ref_matrix(h.parent.q) @ np.asarray(h.socket_p.r) + h.parent.r
            close(at, (np.asarray(h.parent.r) + h.child.r) / 2, atol=1e-7 * p["cube_edge_length"], msg="hinge half way between the links")
            close(np.asarray(h.parent.r)[1:], np.asarray(h.child.r)[1:], atol=1e-9, msg="links are aligned")
        return
    R, r = p["major_radius"], p["minor_radius"]
    X = np.array([eng.bodies[m].r for m in names])
    N = np.array([ref_matrix(eng.bodies[m].q) @ axis_of(eng.bodies[m].shape) for m in names])
    close(X.mean(axis=0), I3, atol=1e-6 * R, msg="the mail is centred")
    close(X[:, 1], np.zeros(n), atol=1e-6 * R, msg="the mail lies in a horizontal plane")
    t = np.linspace(0, 2 * np.pi, 90, endpoint=False)
    linked = 0
    circles = []
    for x, a in zip(X, N):
        u = np.cross(a, [0.3, 0.5, 0.8])
        u /= np.linalg.norm(u)
        circles.append(x + R * (np.cos(t)[:, None] * u + np.sin(t)[:, None] * np.cross(a, u)))
    for i in range(n):
        for j in range(i):
            if np.linalg.norm(X[i] - X[j]) < 2 * (R + r):
                dist = np.linalg.norm(circles[i][:, None] - circles[j][None], axis=2).min()
                ensure(dist >= 2 * r - 1e-2 * R, "rings touch", distance=dist, needed=2 * r)
                side = (circles[j] - X[i]) @ N[i]                       # does ring j pass through the disk of ring i
                cross = [circles[j][s] for s in range(len(t)) if side[s] * side[s - 1] <= 0 and abs(side[s] - side[s - 1]) > 1e-9]
                inside = [np.linalg.norm(c - X[i]) < R for c in cross]
                if sum(inside) % 2 == 1:
                    linked += 1
    c, w = p["columns"], p["rows"]
    ensure(linked == 2 * c * (w + 1) + 2 * w * (c + 1), "interlocked pairs", have=linked, want=2 * c * (w + 1) + 2 * w * (c + 1))
    fixed = [i for i, m in enumerate(names) if eng.bodies[m].is_fixed]
    if p["pinned"]:
        corner = [i for i in range(n) if abs(abs(X[i, 0]) - np.abs(X[:, 0]).max()) < 1e-6 * R and abs(abs(X[i, 2]) - np.abs(X[:, 2]).max()) < 1e-6 * R]
        ensure(sorted(fixed) == sorted(corner) and len(corner) == 4, "pinned rings are the four corners", fixed=fixed, corners=corner)
    else:
        ensure(not fixed, "unpinned rings are free")


def axis_of(shape):
    """symmetry axis of a flat ring in its body frame"""
    V = np.asarray(shape.mesh.V)
    w, U = np.linalg.eigh(np.cov(V.T))
    return U[:, 0]


def judge_hinge(h, axis, size):
    """both sockets coincide in the world and turn about the axis"""
    frames = []
    for body, sock in ((h.parent, h.socket_p if hasattr(h, "socket_p") else None), (h.child, h.socket_c if hasattr(h, "socket_c") else None)):
        if sock is None:
            return
        Rb = ref_matrix(body.q)
        frames.append((Rb @ np.asarray(sock.r) + body.r, Rb @ ref_matrix(sock.q)))
    close(frames[0][0], frames[1][0], atol=1e-7 * size, msg="sockets of a hinge apart")
    close(frames[0][1], frames[1][1], atol=1e-7, msg="sockets of a hinge turned")
    close(np.abs(frames[0][1][:, 2] @ axis), 1.0, atol=1e-7, msg="axis of the hinge")


@sub(quick=60, thorough=600)
def refusals(d):
    """impossible parameters are refused with a warning or error and nothing is created; non-trivial always"""
    eng = engine()
    good = dict(width=2.0, height=3.0, depth=0.5, pier_stones=2, arch_stones=5, density=1.0)
    case = d.pick(["width", "height", "depth", "pier", "few", "even", "density", "low", "temple", "pantheon"])
    d.label(case)
    p = dict(good)
    neg = d.pick([0.0, -1.0])
    p.update(dict(width=dict(width=neg), height=dict(height=neg), depth=dict(depth=neg), pier=dict(pier_stones=d.pick([0, -1])), few=dict(arch_stones=d.int(-1, 2)),
                  even=dict(arch_stones=d.pick([4, 6, 8])), density=dict(density=neg), low=dict(height=d.pick([0.5, 1.0]))).get(case, {}))
    try:
        if case == "temple":
            SC.create_temple(eng, 4, d.pick([3, 5, 6, 8]), 1.0, 3.0, 1.0, 1, 1.0, "default")
        elif case == "pantheon":
            SC.create_pantheon(eng, I3, E, 5.0, 4.0, d.pick([5.0, 3.0]), 2, 6, 1.0, "default")
        else:
            SC.create_arch(eng, I3, E, material_name="default", **p)
        raised = None
    except Exception as ex:
        raised = ex
    ensure(isinstance(raised, (RuntimeWarning, RuntimeError)), "impossible parameters must be refused", case=case, got=raised)
    ensure(not eng.bodies and not eng.shapes, "a refused building left bodies behind", bodies=list(eng.bodies)[:3])


def gear(d, m=None, alpha=None):
    return GearFactory.make_gear_specs(m=m or d(pos(0.3, 3)), Z=d.int(7, 30), alpha=alpha or d.pick([20.0, 20.0, 14.5, 25.0]))


def roll(r, rb):
    return np.sqrt((r / rb) ** 2 - 1)


def inv(r, rb):
    """polar angle of the involute of a circle at a radius"""
    t = roll(r, rb)
    return t - np.arctan(t)


@sub(quick=80, thorough=1500)
def gear_geometry(d):
    """gears have the standard radii, involute flanks, tooth thickness and symmetry; their mesh is the closed prism over the profile; non-trivial always"""
    g = gear(d)
    m, Z, al = g["module"], g["number of teeth"], g["pressure angle"]
    Rp, Rb = m * Z / 2, m * Z / 2 * np.cos(np.deg2rad(al))
    close([g["pitch radius"], g["base radius"], g["top radius"], g["root radius"]], [Rp, Rb, Rp + m, Rp - 1.25 * m], rtol=1e-12, msg="radii")
    close([g["pitch"], g["tooth thickness"], g["tooth height"]], [np.pi * m, np.pi * m / 2, 2.25 * m], rtol=1e-12, msg="pitch, thickness, height")
    P = np.column_stack([g["x"], g["y"]])
    rad = np.linalg.norm(P, axis=1)
    ensure(rad.max() <= g["top radius"] * (1 + 1e-9) and rad.min() >= min(g["root radius"], Rb) * (1 - 1e-9), "profile leaves the ring between root and tip", lo=rad.min(), hi=rad.max())
    close(float(rad.max()), Rp + m, rtol=1e-9, msg="tip radius")
    # symmetry under one tooth
    c, s = np.cos(2 * np.pi / Z), np.sin(2 * np.pi / Z)
    n = len(P) // Z
    ensure(n * Z == len(P), "teeth have the same number of points")
    close(np.roll(P @ np.array([[c, s], [-s, c]]), n, axis=0), P, atol=1e-9 * Rp, msg="profile after a turn by one tooth")
    # flanks: angle from the tooth's centre line as a function of the radius
    cen = np.pi / Z / 2
    first = P[:n]
    ang = np.arctan2(first[:, 1], first[:, 0]) - cen
    r0 = np.linalg.norm(first, axis=1)
    flank = (r0 >= Rb * (1 - 1e-12)) & (r0 > g["root radius"] * (1 + 1e-9)) & (r0 < (Rp + m) * (1 - 1e-9))
    half = np.pi / (2 * Z) + inv(Rp, Rb) - inv(np.maximum(r0[flank], Rb), Rb)
    close(np.abs(ang[flank]), half, atol=1e-7, msg="involute flanks")
    ensure((ang[flank] > 0).any() and (ang[flank] < 0).any(), "flanks on both sides")
    tip = np.pi / (2 * Z) + inv(Rp, Rb) - inv(Rp + m, Rb)
    base = np.pi / (2 * Z) + inv(Rp, Rb)
    top, low = ang[r0 >= (Rp + m) * (1 - 1e-9)], ang[np.abs(r0 - g["root radius"]) <= 1e-9 * Rp]
    ensure(len(top) > 2 and (np.diff(top) * np.sign(tip) > -1e-9).all(), "tip arc runs back", got=top)
    close([top.min(), top.max()], [-abs(tip), abs(tip)], atol=1e-7, msg="tip arc does not end on the flanks")
    ensure(len(low) > 2 and low.min() > base - 1e-7 and low.max() < 2 * np.pi / Z - base + 1e-7, "root arc is not between the teeth", got=low, tooth=base)
    close([g["beta"], g["gamma"], g["delta"]], [np.pi / Z, inv(Rp + m, Rb) - inv(Rp, Rb), inv(Rp, Rb)], atol=1e-9, msg="angles spanned by a tooth and its flanks")
    w = d(pos(0.2, 10))
    V, T = GearFactory.make_gear_mesh(g, face_width=w)
    edges = {}
    for t in np.asarray(T):
        for i in range(3):
            e = (int(t[i]), int(t[(i + 1) % 3]))
            edges[e] = edges.get(e, 0) + 1
    ensure(all(c == 1 and edges.get((b, a)) == 1 for (a, b), c in edges.items()), "gear mesh is not closed and oriented")
    nxt = np.roll(P, -1, axis=0)
    area = 0.5 * float((P[:, 0] * nxt[:, 1] - P[:, 1] * nxt[:, 0]).sum())
    close(sc.volume(V, T), area * w, rtol=1e-9, msg="volume of the gear")
    close([float(V[:, 2].min()), float(V[:, 2].max())], [-w / 2, w / 2], atol=1e-12, msg="face width")


def solid(g, a):
    """is the tooth or the gap at pitch radius under polar angle a in the gear's own frame"""
    b = np.pi / g["number of teeth"]
    return (a % (2 * b)) / b


@sub(quick=120, thorough=2000)
def gear_assembly(d):
    """an assembled gear touches its driver at the pitch circles with teeth in gaps at every angle; transmission chains keep the ratio; mismatching gears are refused; non-trivial if accepted"""
    g1 = gear(d)
    if d.pick([0, 0, 0, 1]):
        d.label("mismatch")
        g2 = gear(d, m=g1["module"] * d.pick([1.0, 1.5]), alpha=g1["pressure angle"] + 2.0)
        try:
            GearFactory.make_gears_assembly(g1, g2, 0.0, 0.0, 0.0, 0.0)
            fail("incompatible gears were accepted")
        except ValueError:
            d.nontrivial(False)
            return
    g2 = gear(d, m=g1["module"], alpha=g1["pressure angle"])
    c = d(vec(2, -9, 9))
    theta, omega = d(num(-7, 7)), d(num(-7, 7))
    cx, cy, phi = GearFactory.make_gears_assembly(g1, g2, c[0], c[1], theta, omega)
    R = g1["pitch radius"] + g2["pitch radius"]
    close([cx, cy], [c[0] + R * np.cos(omega), c[1] + R * np.sin(omega)], atol=1e-9, msg="centre of the driven gear")
    u1, u2 = solid(g1, omega - theta), solid(g2, omega + np.pi - phi)      # [0,1]: tooth, [1,2]: gap
    close(float((u1 + u2 + 1e-6) % 2), 1e-6, atol=1e-6, msg="tooth must meet gap at the pitch point")
    dt = d(num(-1, 1))
    _, _, phi2 = GearFactory.make_gears_assembly(g1, g2, c[0], c[1], theta + dt, omega)
    close((phi2 - phi) * g2["number of teeth"], -dt * g1["number of teeth"], atol=1e-9, msg="transmission ratio")


@sub(quick=8, thorough=60)
def gear_train(d):
    """consecutive gears of a train touch at their pitch circles, every gear is hinged to the fixed ground about its own axis; non-trivial always"""
    eng = engine()
    np.random.seed(d.int(0, 999))
    N = d.int(1, 5)
    names = SC.create_gear_train(eng, N, density=2.0, material_name="stone")
    judge_bodies(eng, names, set(), 2.0, "stone")
    ensure(len(names) == N + 1, "N gears and the ground")
    gears = [eng.bodies[n] for n in names if not eng.bodies[n].is_fixed]
    ensure(len(gears) == N, "gears are free, the ground is fixed")
    ground = [eng.bodies[n] for n in names if eng.bodies[n].is_fixed][0]
    W = [sc.world(b) for b in gears]
    rad = []
    for b, w in zip(gears, W):
        ensure(sc.world(ground)[:, 1].max() <= w[:, 1].min() + 1e-6, "gears are above the ground")
        rad.append(np.linalg.norm((w - b.r)[:, [0, 2]], axis=1).max() - 1.0)       # module 1: tip is one above the pitch circle
    for i in range(N - 1):
        close(float(np.linalg.norm((gears[i].r - gears[i + 1].r)[[0, 2]])), rad[i] + rad[i + 1], rtol=1e-6, msg="pitch circles touch")
        a, b = W[i][:, 1], W[i + 1][:, 1]
        ensure(a.min() < b.max() and b.min() < a.max(), "consecutive gears share a layer")
        u = []                                                                     # part of a tooth period by which the centre line misses a tooth's centre
        for k, other in ((i, i + 1), (i + 1, i)):
            P = (W[k] - gears[k].r)[:, [0, 2]]
            tips = P[np.linalg.norm(P, axis=1) > rad[k] + 1 - 1e-6]
            Z, line = int(round(2 * rad[k])), (gears[other].r - gears[k].r)[[0, 2]]
            phase = np.angle(np.exp(1j * Z * np.arctan2(tips[:, 1], tips[:, 0])).sum())
            u.append((Z * np.arctan2(line[1], line[0]) - phase) / (2 * np.pi))
        close((sum(u) + 0.25) % 1.0, 0.75, atol=1e-3, msg="teeth of consecutive gears do not meet gaps")
    ensure(len(eng.hinges) == N and {h.child.name for h in eng.hinges.values()} == {g.name for g in gears} and all(h.parent is ground for h in eng.hinges.values()),
           "every gear is hinged to the ground")
    for h in eng.hinges.values():
        w = sc.world(h.child)
        judge_hinge(h, np.array([0, 1.0, 0]), 10.0)
        P = np.asarray(h.socket_c.r) if hasattr(h, "socket_c") else None
        if P is not None:
            o = ref_matrix(h.child.q) @ P + h.child.r
            close(o[[0, 2]], np.asarray(h.child.r)[[0, 2]], atol=1e-6, msg="hinge is off the axis of the gear")


def pile(d, k):
    eng = engine()
    np.random.seed(d.int(0, 999))
    I, J, K = d.int(1, 2), d.int(1, 2), d.int(1, 2)
    w, h, dd = np.array([d(pos(1, 6)), d(pos(1, 6)), d(pos(1, 6))]) * np.where(np.arange(3) == d.int(0, 2), 0.2, 1.0)      # one side decides the size of the grains
    rho = d(pos(0.1, 20))
    r0 = None
    if k == "funnel":
        H, Rf = d(pos(1, 5)), d(pos(1, 5))
        names = SC.create_funnel(eng, H, Rf, w, h, dd, I, J, K, rho, "stone")
        r0, fixed = np.array([-w / 2, 3 * H, -dd / 2]), 1
    elif k == "glasses":
        H, Rf = d(pos(1, 5)), d(pos(1, 5))
        names = SC.create_glasses(eng, H, Rf, w, h, dd, I, J, K, rho, "stone")
        r0, fixed = np.array([-w / 2, 1.25 * H, -dd / 2]), 1
    elif k == "poles":
        H, Rf, Ip, Kp = d(pos(1, 5)), d(pos(0.05, 0.1)), d.int(1, 3), d.int(1, 3)
        names = SC.create_poles(eng, H, Rf, Ip, Kp, w, h, dd, I, J, K, rho, "stone")
        r0, fixed = np.array([-w / 2, 2 * H, -dd / 2]), Ip * Kp
    elif k == "sandbox":
        names = SC.create_sandbox(eng, w, h, dd, I, J, K, rho, "stone")
        r0, fixed = np.array([-w / 2, 1.6 * h, -dd / 2]), 5
    elif k == "rock_slide":
        names = SC.create_rock_slide(eng, w, h, dd, I, J, K, rho, "stone")
        fixed = 1
    else:
        r0, fixed = d(vec(3, -9, 9)), 0
        names = SC.create_jack_lattice(eng, r0, E, w, h, dd, I, J, K, rho, "stone", use_random_orientation=d.bool())
    judge_bodies(eng, names, set(), rho, "stone")
    F = [n for n in names if eng.bodies[n].is_fixed]
    ensure(len(F) == fixed, "number of fixed bodies", have=len(F), want=fixed)
    free = [eng.bodies[n] for n in names if not eng.bodies[n].is_fixed]
    ensure(len(free) == I * J * K + (20 if k == "rock_slide" else 0), "number of free bodies", have=len(free))
    cell = np.array([w / I, h / J, dd / K])
    grains = free if k != "rock_slide" else free[-I * J * K:]
    if r0 is not None:
        at = sorted(tuple(np.floor((np.asarray(b.r) - r0) / cell).astype(int)) for b in grains)
        ensure(at == sorted((i, j, l) for i in range(I) for j in range(J) for l in range(K)), "one grain in every cell of the announced region", at=at)
        for b in grains:
            x = (np.asarray(b.r) - r0) / cell
            close(x - np.floor(x), np.full(3, 0.5), atol=1e-7, msg="grain is not in the middle of its cell")
    for b in grains:                                  # as the mesh was drawn, before the turn into the principal axes
        size = float(np.ptp(np.asarray(b.shape.mesh.V) @ ref_matrix(b.shape.q).T, axis=0).max())
        close(size, (1.0 if k == "poles" else 0.9) * cell.min(), rtol=1e-6, msg="size of a grain")
    if k == "poles":
        P = [sc.world(eng.bodies[n]) for n in F]
        for X in P:
            close([float(X[:, 1].min()), float(X[:, 1].max())], [0.0, H], atol=1e-9 * H, msg="poles stand on the ground and have the height asked for")
            rad = np.linalg.norm((X - X.mean(axis=0))[:, [0, 2]], axis=1)
            close(float(rad.max()), Rf, rtol=1e-6, msg="radius of a pole")
        xs, zs = sorted({round(float(X[:, 0].mean()), 7) for X in P}), sorted({round(float(X[:, 2].mean()), 7) for X in P})
        close(xs, -w / 2 + Rf + np.arange(Ip) * w / Ip, atol=1e-6, msg="poles in a regular grid")
        close(zs, -dd / 2 + Rf + np.arange(Kp) * dd / Kp, atol=1e-6, msg="poles in a regular grid")
    if k in ("funnel", "glasses"):
        W = sc.world(eng.bodies[F[0]])
        close([float(np.ptp(W[:, 0])), float(np.ptp(W[:, 1])), float(np.ptp(W[:, 2]))], [2 * Rf, H, 2 * Rf], rtol=1e-6, msg="size of the container")
    if k == "sandbox":
        C = [sc.Convex(sc.world(eng.bodies[n])) for n in F]
        for i, j, dep in sc.pair_depths(C, 1e-9):
            ensure(dep <= 1e-6, "walls overlap", depth=dep)
        lo, hi = np.min([c.lo for c in C], axis=0), np.max([c.hi for c in C], axis=0)
        t = 0.1 * h
        close(lo, [-w / 2 - t, 0, -dd / 2 - t], atol=1e-7, msg="outer corner of the box")
        close(hi, [w / 2 + t, h + t, dd / 2 + t], atol=1e-7, msg="outer corner of the box")
        close(sum(c.volume for c in C), float((w + 2 * t) * (h + t) * (dd + 2 * t) - w * h * dd), rtol=1e-6, msg="the walls enclose exactly the inside of the box")


for _k, _n in (("funnel", 6), ("glasses", 6), ("poles", 6), ("sandbox", 6), ("rock_slide", 3), ("jack_lattice", 6)):
    sub("pile_" + _k, quick=_n, thorough=10 * _n, rule=f"{_k}: lists exactly its bodies, grains inside the announced region, containers fixed; non-trivial always")(
        lambda d, k=_k: pile(d, k))


SCENES = ["pillar", "arch", "dome", "tower", "pantheon", "glasses", "box_stack", "cube_hinge_chain", "temple", "colosseum", "poles", "gear_train", "rock_slide", "sandbox", "chainmail", "funnel"]

GROUNDED = ["pillar", "arch", "dome", "tower", "pantheon", "glasses", "box_stack", "temple", "colosseum", "poles", "funnel"]


def ready_scene(d, k):
    import rainbow.simulators.prox_rigid_bodies.scenes.create_scene as CS
    names = SC.get_scene_names()
    ensure(len(set(names)) == len(names) and set(SCENES) <= set(names), "scene names")
    np.random.seed(d.int(0, 99))
    eng = API.create_engine()
    eng.params.resolution = 3
    SC.create_scene(eng, k)
    ensure(len(eng.bodies) > 0 and any(b.is_fixed for b in eng.bodies.values()), "bodies, one of them fixed")
    kinds = sorted(f.force_type for f in eng.forces.values())
    ensure(kinds == ["Damping", "Gravity"], "forces of the scene", have=kinds)
    for b in eng.bodies.values():
        ensure(sorted(f.force_type for f in b.forces) == kinds, "body without gravity or damping", body=b.name)
        ensure(b.mass > 0 and (np.asarray(b.inertia) > 0).all(), "mass of a body", body=b.name)
    if k in GROUNDED:
        W = {b.name: sc.world(b) for b in eng.bodies.values()}
        floor = min((b.name for b in eng.bodies.values() if b.is_fixed), key=lambda n: W[n][:, 1].max())
        rest = np.vstack([X for n, X in W.items() if n != floor])
        lo, hi = W[floor].min(axis=0), W[floor].max(axis=0)
        ensure(len(eng.bodies) > 1 and (rest[:, [0, 2]] >= lo[[0, 2]]).all() and (rest[:, [0, 2]] <= hi[[0, 2]]).all(), "the scene stands on a ground that reaches below all of it")
        ensure(rest[:, 1].min() >= hi[1] - 1e-6, "a body starts below the ground", ground=hi[1], lowest=rest[:, 1].min())
    g = [f for f in eng.forces.values() if f.force_type == "Gravity"][0]
    close(g.up, [0, 1, 0], atol=1e-12, msg="gravity pulls down")
    close(float(g.g), 9.81, atol=0.02, msg="gravity of the earth")


for _k in SCENES:
    sub("scene_" + _k, quick=0 if _k == "funnel" else 1, thorough=1 if _k == "funnel" else 3, rule=f"the named scene {_k} is created with gravity and damping connected to all bodies, masses positive, something to hold it and (buildings and piles) a ground below everything; non-trivial always")(
        lambda d, k=_k: ready_scene(d, k))


if __name__ == "__main__":
    sys.exit(main("C42", ["Buildings use parameters for which all stones are convex; funnel and sandbox scenes are built with few grains."]))
