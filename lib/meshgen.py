"""Harness-owned meshes and mesh oracles (independent of the code under test)."""
import numpy as np
from scipy.spatial import ConvexHull
from pbt import st, vec, pos, num, quat, ref_matrix


# ---------------------------------------------------------------- generators (closed, outward oriented)
def box(w, h, dd):
    V = np.array([[x, y, z] for x in (-w / 2, w / 2) for y in (-h / 2, h / 2) for z in (-dd / 2, dd / 2)])
    return hull(V)


def hull(P):
    """Convex hull of points as (V, F) with outward faces and only used vertices."""
    P = np.asarray(P, dtype=np.float64)
    H = ConvexHull(P)
    used = np.unique(H.simplices)
    idx = -np.ones(len(P), dtype=int)
    idx[used] = np.arange(len(used))
    V = P[used]
    F = idx[H.simplices]
    c = V.mean(axis=0)
    for f in F:
        n = np.cross(V[f[1]] - V[f[0]], V[f[2]] - V[f[0]])
        if np.dot(n, V[f[0]] - c) < 0:
            f[1], f[2] = f[2], f[1]
    return V, F


def torus(R, r, n=9, m=6):
    V = []
    for i in range(n):
        a = 2 * np.pi * i / n
        for j in range(m):
            b = 2 * np.pi * j / m
            V.append([(R + r * np.cos(b)) * np.cos(a), (R + r * np.cos(b)) * np.sin(a), r * np.sin(b)])
    F = []
    for i in range(n):
        for j in range(m):
            p, q = i * m + j, ((i + 1) % n) * m + j
            p2, q2 = i * m + (j + 1) % m, ((i + 1) % n) * m + (j + 1) % m
            F += [[p, q, q2], [p, q2, p2]]
    return np.array(V), np.array(F)


def lshape(a, b, t):
    """An L-shaped (non-convex) prism."""
    P = [(0, 0), (a, 0), (a, t), (t, t), (t, b), (0, b)]
    V = np.array([[x, y, z] for z in (0.0, t) for x, y in P])
    caps = [(0, 1, 2), (0, 2, 3), (0, 3, 4), (0, 4, 5)]
    F = [[i, k, j] for i, j, k in caps] + [[i + 6, j + 6, k + 6] for i, j, k in caps]
    for i in range(6):
        j = (i + 1) % 6
        F += [[i, j, j + 6], [i, j + 6, i + 6]]
    return V, np.array(F)


def closed_mesh(d, place=True, kinds=("box", "hull", "torus", "lshape", "tet")):
    """A random closed, outward oriented mesh of size about 0.5..3 with a random pose."""
    kind = d.pick(kinds)
    d.label(kind)
    if kind == "box":
        V, F = box(d(pos(0.5, 3)), d(pos(0.5, 3)), d(pos(0.5, 3)))
    elif kind == "torus":
        V, F = torus(d(pos(1.0, 1.6)), d(pos(0.3, 0.6)), d.int(5, 9), d.int(4, 6))
    elif kind == "lshape":
        V, F = lshape(d(pos(1.0, 2.5)), d(pos(1.0, 2.5)), d(pos(0.4, 0.8)))
    else:
        n = 4 if kind == "tet" else d.int(5, 12)
        base = np.array([[1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1]], dtype=float)
        P = np.vstack([base + 0.3 * np.array([d(vec(3, -1, 1)) for _ in range(4)])] +
                      [d(vec(3, -1.5, 1.5))[None] for _ in range(n - 4)])
        V, F = hull(P)
        s = np.array([d(pos(0.5, 1.5)) for _ in range(3)])
        V = V * s
    if place:
        V = V @ ref_matrix(d(quat())).T + d(vec(3, -3, 3))
    return np.ascontiguousarray(V, dtype=np.float64), np.ascontiguousarray(F, dtype=np.int64)


# ---------------------------------------------------------------- oracles
def edges_closed(F):
    """'' if every directed edge occurs exactly once together with its reverse, else a description."""
    cnt = {}
    for f in F:
        a = [int(x) for x in f]
        if len(set(a)) != 3:
            return f"face {a} has repeated vertices"
        for i in range(3):
            e = (a[i], a[(i + 1) % 3])
            cnt[e] = cnt.get(e, 0) + 1
    for (i, j), c in cnt.items():
        if c != 1:
            return f"directed edge {(i, j)} occurs {c} times"
        if (j, i) not in cnt:
            return f"edge {(i, j)} has no opposite (mesh is open)"
    return ""


def volume(V, F):
    c = V.mean(axis=0)
    A, B, C = V[F[:, 0]] - c, V[F[:, 1]] - c, V[F[:, 2]] - c
    return float(np.einsum("ij,ij->", A, np.cross(B, C)) / 6.0)


def area(V, F):
    return float(0.5 * np.linalg.norm(np.cross(V[F[:, 1]] - V[F[:, 0]], V[F[:, 2]] - V[F[:, 0]]), axis=1).sum())


def euler(V, F):
    E = {tuple(sorted((int(f[i]), int(f[(i + 1) % 3])))) for f in F for i in range(3)}
    used = len({int(x) for f in F for x in f})
    return used - len(E) + len(F)


def components(F):
    par = {}

    def find(x):
        while par[x] != x:
            par[x] = par[par[x]]
            x = par[x]
        return x
    for f in F:
        for x in f:
            par.setdefault(int(x), int(x))
        for x in f[1:]:
            par[find(int(f[0]))] = find(int(x))
    return len({find(x) for x in par})


def moments(V, F):
    """volume, centre of mass and second moment matrix  int x x^T dV  about the origin (exact, tetrahedra to centroid)"""
    o = V.mean(axis=0)
    vol, first = 0.0, np.zeros(3)
    S = np.zeros((3, 3))
    for f in F:
        a, b, c = V[f[0]] - o, V[f[1]] - o, V[f[2]] - o
        v = np.dot(a, np.cross(b, c)) / 6.0
        vol += v
        s = a + b + c
        first += v * s / 4.0
        S += v / 20.0 * (np.outer(a, a) + np.outer(b, b) + np.outer(c, c) + np.outer(s, s))
    com = first / vol
    S0 = S + vol * (np.outer(com, o) + np.outer(o, com)) + vol * np.outer(o, o)
    return vol, com + o, S0


def inertia_from_second_moment(S):
    return np.trace(S) * np.eye(3) - S


def point_triangle_dist(p, a, b, c):
    """Ericson's closest point, written independently."""
    ab, ac, ap = b - a, c - a, p - a
    n = np.cross(ab, ac)
    nn = n @ n
    best = np.inf
    if nn > 0:
        # projection inside the triangle
        w = np.cross(ab, ap) @ n / nn
        v = np.cross(ap, ac) @ n / nn
        if v >= 0 and w >= 0 and v + w <= 1:
            best = abs(ap @ n) / np.sqrt(nn)
    for s, e in ((a, b), (b, c), (c, a)):
        u = e - s
        t = np.clip((p - s) @ u / (u @ u), 0, 1)
        best = min(best, np.linalg.norm(p - s - t * u))
    return best


def unsigned_distance(p, V, F):
    return min(point_triangle_dist(p, V[f[0]], V[f[1]], V[f[2]]) for f in F)


def winding(p, V, F):
    A, B, C = V[F[:, 0]] - p, V[F[:, 1]] - p, V[F[:, 2]] - p
    a, b, c = (np.linalg.norm(X, axis=1) for X in (A, B, C))
    num_ = np.einsum("ij,ij->i", A, np.cross(B, C))
    den = a * b * c + np.einsum("ij,ij->i", A, B) * c + np.einsum("ij,ij->i", B, C) * a + np.einsum("ij,ij->i", C, A) * b
    return float((2 * np.arctan2(num_, den)).sum() / (4 * np.pi))


def signed_distance(p, V, F):
    return unsigned_distance(p, V, F) * (-1.0 if winding(p, V, F) > 0.5 else 1.0)


def in_hull(p, V, F):
    """signed clearance of p from a convex mesh's face planes: <=0 inside"""
    n = np.cross(V[F[:, 1]] - V[F[:, 0]], V[F[:, 2]] - V[F[:, 0]])
    n = n / np.linalg.norm(n, axis=1)[:, None]
    return float(np.max(np.einsum("ij,ij->i", n, p - V[F[:, 0]])))


def refine(V, F):
    """every triangle is split into four at the middles of its edges"""
    V, mid, out = [np.asarray(v) for v in V], {}, []

    def m(a, b):
        k = (min(a, b), max(a, b))
        if k not in mid:
            mid[k] = len(V)
            V.append((V[a] + V[b]) / 2)
        return mid[k]
    for a, b, c in np.asarray(F).tolist():
        x, y, z = m(a, b), m(b, c), m(c, a)
        out += [[a, x, z], [x, b, y], [z, y, c], [x, y, z]]
    return np.array(V), np.array(out)
