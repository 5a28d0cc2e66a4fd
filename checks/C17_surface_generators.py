from pbt import *
import meshgen as mg
import rainbow.geometry.surface_mesh as MESH


def solid(V, T, euler=2, msg=""):
    V, T = np.asarray(V), np.asarray(T)
    ensure(V.ndim == 2 and V.shape[1] == 3 and T.ndim == 2 and T.shape[1] == 3, "shapes of V and T" + msg)
    ensure(np.all(np.isfinite(V)), "non-finite vertex" + msg)
    ensure(T.min() >= 0 and T.max() < len(V), "triangle refers to a missing vertex" + msg)
    ensure(set(np.unique(T)) == set(range(len(V))), "unused vertices" + msg)
    e = mg.edges_closed(T)
    ensure(not e, "surface is not closed and consistently oriented" + msg + ": " + e)
    ensure(mg.components(T) == 1, "surface is not connected" + msg)
    ensure(mg.euler(V, T) == euler, "topology (Euler characteristic)" + msg, got=mg.euler(V, T))
    return mg.volume(V, T)


def gon(J):
    return J / 2.0 * np.sin(2 * np.pi / J)


def frusta(profile, J):
    v = 0.0
    for (r0, y0), (r1, y1) in zip(profile[:-1], profile[1:]):
        v += gon(J) * (y1 - y0) / 3.0 * (r0 * r0 + r0 * r1 + r1 * r1)
    return v


def swept(V, profile, J, msg):
    """every vertex lies on a circle of the profile at one of J equally spaced angles; poles on the axis"""
    rad = np.hypot(V[:, 0], V[:, 2])
    want = []
    for r, y in profile[1:-1]:
        want += [(y, r)] * J
    want += [(profile[0][1], 0.0), (profile[-1][1], 0.0)]
    got = sorted((round(float(y), 9), round(float(r), 9)) for y, r in zip(V[:, 1], rad))
    want = sorted((round(float(y), 9), round(float(r), 9)) for y, r in want)
    close(np.array(got), np.array(want), atol=1e-6, msg="heights and radii of the vertices" + msg)


@sub(quick=250)
def sweep(d):
    """profiles of 3..8 points climbing the y axis, 3..12 slices: closed outward solid with the swept volume"""
    J = d.size(3, 12, 100)
    n = d.size(1, 6, 40)
    y = 0.0
    prof = [(0.0, d(num(-3, 3)))]
    for _ in range(n):
        prof.append((d(pos(0.2, 2.0)), prof[-1][1] + d(st.floats(0.05, 1.0))))
    prof.append((0.0, prof[-1][1] + d(st.floats(0.05, 1.0))))
    P = [np.array([r, y, 0.0]) for r, y in prof]
    V, T = MESH.profile_sweep(P, J)
    vol = solid(V, T)
    close(vol, frusta(prof, J), atol=1e-9, rtol=1e-9, msg="swept volume")
    swept(V, prof, J, " of a sweep")
    ensure(len(V) == n * J + 2 and len(T) == 2 * J * n, "number of vertices and triangles")


@sub(quick=150)
def sweep_refused(d):
    """profiles with fewer than three points or fewer than three slices are refused"""
    P = [np.array([0.0, 0, 0]), np.array([1.0, 0.5, 0]), np.array([0.0, 1, 0])]
    n, J = (d.int(0, 2), d.int(3, 9)) if d.bool() else (3, d.int(-1, 2))
    try:
        MESH.profile_sweep(P[:n], J)
    except RuntimeError:
        return
    fail(f"profile of {n} points with {J} slices accepted")


@sub(quick=400)
def primitives(d):
    """cylinder, cone, conical, sphere, ellipsoid, capsule: closed outward solids with the documented dimensions"""
    kind = d.pick(["cylinder", "cone", "conical", "sphere", "ellipsoid", "capsule"])
    d.label(kind)
    J = d.size(3, 14, 80)
    r, h = d(pos(0.1, 5)), d(pos(0.1, 5))
    m = " of a " + kind
    if kind == "cylinder":
        s = d.size(1, 5, 40)
        V, T = MESH.create_cylinder(r, h, J, s)
        prof = [(0, -h / 2)] + [(r, -h / 2 + h * i / s) for i in range(s + 1)] + [(0, h / 2)]
    elif kind == "cone":
        V, T = MESH.create_cone(r, h, J)
        prof = [(0, 0), (r, 0), (0, h)]
    elif kind == "conical":
        r2 = d(pos(0.1, 5))
        V, T = MESH.create_conical(r, r2, h, J)
        prof = [(0, 0), (r, 0), (r2, h), (0, h)]
    elif kind == "sphere":
        s = d.size(3, 10, 40)
        V, T = MESH.create_sphere(r, J, s)
        prof = [(r * np.sin(np.pi * i / (s - 1)), -r * np.cos(np.pi * i / (s - 1))) for i in range(s)]
        close(np.linalg.norm(V, axis=1), np.full(len(V), r), msg="distance of sphere vertices to the centre")
    elif kind == "ellipsoid":
        s = d.size(3, 10, 40)
        a, b, c = d(pos(0.1, 5)), d(pos(0.1, 5)), d(pos(0.1, 5))
        V, T = MESH.create_ellipsoid(a, b, c, J, s)
        close(((V / np.array([a, b, c])) ** 2).sum(axis=1), np.ones(len(V)), msg="ellipsoid equation")
        V0 = V / np.array([a, b, c])
        prof = [(np.sin(np.pi * i / (s - 1)), -np.cos(np.pi * i / (s - 1))) for i in range(s)]
        vol = solid(V, T, msg=m)
        close(vol, a * b * c * frusta(prof, J), rtol=1e-9, msg="volume" + m)
        swept(V0, prof, J, m)
        return
    else:
        s = d.size(3, 10, 40)
        V, T = MESH.create_capsule(r, h, J, s)
        prof = []
        for i in range(s):
            th = np.pi * i / (s - 1)
            # below the middle of the profile: lower cap; above: upper cap
            prof.append((r * np.sin(th), -r * np.cos(th) + (-h / 2 if i < s / 2 else h / 2)))
        lo, hi = V[:, 1].min(), V[:, 1].max()
        close([lo, hi], [-h / 2 - r, h / 2 + r], msg="extent of a capsule along its axis")
        for v in V:
            e = max(abs(v[1]) - h / 2, 0.0)
            close(np.sqrt(v[0] ** 2 + v[2] ** 2 + e * e), r, msg="distance of capsule vertices to its axis segment")
        vol = solid(V, T, msg=m)
        if s % 2 == 0:
            close(vol, frusta(prof, J), rtol=1e-9, msg="volume" + m)
            swept(V, prof, J, m)
        ensure(len(V) == (s - 2) * J + 2, "number of vertices")
        return
    vol = solid(V, T, msg=m)
    close(vol, frusta(prof, J), rtol=1e-9, msg="volume" + m)
    swept(V, prof, J, m)


@sub(quick=60)
def defaults(d):
    """default resolutions give closed solids close to the smooth volume"""
    r, h = d(pos(0.2, 3)), d(pos(0.2, 3))
    for V, T, want in ((*MESH.create_sphere(r), 4 / 3 * np.pi * r ** 3), (*MESH.create_cylinder(r, h), np.pi * r * r * h),
                       (*MESH.create_cone(r, h), np.pi * r * r * h / 3),
                       (*MESH.create_conical(r, r, h), np.pi * r * r * h),
                       (*MESH.create_capsule(r, h), np.pi * r * r * h + 4 / 3 * np.pi * r ** 3)):
        vol = solid(V, T)
        ensure(0.8 * want < vol < 1.02 * want, "volume at the default resolution", vol=vol, want=want)


@sub(quick=250)
def boxes(d):
    """boxes, cuboids (convex hexahedra) and their volumes"""
    w, h, dd = d(pos(0.1, 5)), d(pos(0.1, 5)), d(pos(0.1, 5))
    V, T = MESH.create_box(w, h, dd)
    vol = solid(V, T, msg=" of a box")
    close(vol, w * h * dd, rtol=1e-9, msg="volume of a box")
    close(V.min(axis=0), -0.5 * np.array([w, h, dd]), msg="lower corner")
    close(V.max(axis=0), 0.5 * np.array([w, h, dd]), msg="upper corner")
    ensure(len(V) == 8 and len(T) == 12, "box has 8 vertices and 12 triangles")
    # p0..p3 front face counter-clockwise seen from outside (z+), p4..p7 behind them
    C = np.array([[-1, -1, 1], [1, -1, 1], [1, 1, 1], [-1, 1, 1], [-1, -1, -1], [1, -1, -1], [1, 1, -1], [-1, 1, -1]], float)
    A = ref_matrix(d(quat())) @ np.diag([d(pos(0.2, 2)) for _ in range(3)]) @ ref_matrix(d(quat()))
    P = C @ A.T + d(vec(3))
    V, T = MESH.create_cuboid(*P)
    vol = solid(V, T, msg=" of a cuboid")
    close(vol, 8 * np.linalg.det(A), rtol=1e-8, msg="volume of a cuboid")
    close(V, P, msg="cuboid vertices")


@sub(quick=200)
def torus(d):
    """tori: closed, one hole, vertices at the minor radius from the major circle, positive volume"""
    R, r = d(pos(1.1, 4)), d(pos(0.1, 1.0))
    n, m = d.size(3, 12, 40), d.size(3, 12, 40)
    V, T = MESH.create_torus(R, r, n, m)
    vol = solid(V, T, euler=0, msg=" of a torus")
    rad = np.hypot(V[:, 0], V[:, 1])
    close(np.hypot(rad - R, V[:, 2]), np.full(len(V), r), atol=1e-9, msg="distance to the major circle")
    ensure(len(V) == n * m and len(T) == 2 * n * m, "number of vertices and triangles")
    ring = np.arctan2(V[:, 1], V[:, 0]) * m / (2 * np.pi)
    tube = np.arctan2(V[:, 2] / r, (rad - R) / r) * n / (2 * np.pi)
    for what, a in (("around the axis", ring), ("around the tube", tube)):
        close(a, np.round(a), atol=1e-6, msg="vertices are not evenly spaced " + what)
    at = {(int(round(a)) % m, int(round(b)) % n) for a, b in zip(ring, tube)}
    ensure(len(at) == n * m, "places of the regular torus lattice are empty", places=len(at), n=n, m=m)
    ensure(vol > 0, "torus is turned inside out", vol=vol)
    if n >= 8 and m >= 8:
        ensure(0.6 < vol / (2 * np.pi ** 2 * R * r * r) < 1.02, "volume of a torus", vol=vol)


@sub(quick=300)
def convex_hull(d):
    """point clouds with interior points: hull is a closed outward convex surface containing every point"""
    base = np.array([[1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1]], dtype=float) * d(pos(0.5, 2))
    P = np.vstack([base + 0.3 * np.array([d(vec(3, -1, 1)) for _ in range(4)])] +
                  [d(vec(3, -2, 2))[None] for _ in range(d.int(0, 12))])
    P = P + d(vec(3))
    P = P[d(st.permutations(list(range(len(P)))))] * d.pick([1.0, 1.0, 1e-3, 1e3])
    size = np.abs(P - P.mean(axis=0)).max()
    arg = P.copy() if d.bool() else [p.copy() for p in P]
    V, T = MESH.create_convex_hull(arg)
    for p in P:
        ensure(mg.in_hull(p, V, T) <= 1e-7 * size, "a point lies outside its convex hull", p=p)
    for v in V:
        ensure(np.min(np.linalg.norm(P - v, axis=1)) < 1e-12 * size, "hull vertex that is no input point", v=v)
    ensure(not mg.edges_closed(T), "hull is not closed and consistently oriented: " + mg.edges_closed(T))
    close(mg.volume(V, T), mg.ConvexHull(P).volume, rtol=1e-9, msg="volume of the hull")


if __name__ == "__main__":
    sys.exit(main("C17", ["slices >= 3, sphere-like shapes with at least 3 segments, positive dimensions"]))
