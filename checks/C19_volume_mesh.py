from pbt import *
from scipy.spatial import Delaunay
import meshgen as mg
import rainbow.geometry.volume_mesh as VM
import rainbow.geometry.grid3 as GRID

FACES = [(1, 2, 3), (0, 2, 3), (0, 1, 3), (0, 1, 2)]          # face opposite local vertex


def vols(V, T):
    E = V[T[:, 1:]] - V[T[:, :1]]
    return np.linalg.det(E) / 6.0


def tetmesh(d, subset=True):
    """beams, Delaunay meshes and random subsets of their elements; positively oriented; vertices and elements shuffled"""
    kind = d.pick(["beam", "beam", "delaunay", "single"]) if d.int(0, 9) else "big"
    d.label(kind)
    if kind == "big":                                          # more than a hundred vertices, shuffled
        V, T = VM.create_beam(*d(st.permutations([d.int(3, 5), d.int(4, 7), d.int(5, 9)])), 2.0, 1.0, 1.5)
        perm = np.random.RandomState(d.int(0, 9999)).permutation(len(V))
        V2 = np.empty_like(V)
        V2[perm] = V
        return V2, perm[T].astype(int)
    if kind == "single":
        V = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]], float) + 0.2 * np.array([d(vec(3, -1, 1)) for _ in range(4)])
        T = np.array([[0, 1, 2, 3]])
    elif kind == "beam":
        V, T = VM.create_beam(d.int(2, 4), d.int(2, 3), d.int(2, 3), 2.0, 1.0, 1.5)
        V = V + 0.05 * np.array([d(vec(3, -1, 1)) for _ in range(min(4, len(V)))] + [np.zeros(3)] * max(0, len(V) - 4))
    else:
        n = d.int(5, 10)
        P = np.array([d(vec(3, -2, 2)) for _ in range(n)])
        P = P + np.array([[np.sin(3.7 * i), np.cos(5.1 * i), np.sin(2.3 * i + 1)] for i in range(n)])
        T = Delaunay(P).simplices.copy()
        V = P
        T = T[np.abs(vols(V, T)) > 1e-3]
        if len(T) == 0:
            return tetmesh(d, subset)
    T = np.array(T, dtype=int)
    if subset and len(T) > 2 and d.bool():
        d.label("subset")
        keep = [i for i in range(len(T)) if d.int(0, 3) > 0] or [0]
        T = T[keep]
    neg = vols(V, T) < 0
    T[neg] = T[neg][:, [1, 0, 2, 3]]
    perm = np.array(d(st.permutations(list(range(len(V))))))
    V2 = np.empty_like(V)
    V2[perm] = V
    T = perm[T]
    for e in range(len(T)):                                    # even permutations of the local nodes keep the orientation
        k = d.int(0, 3)
        T[e] = T[e][list([(0, 1, 2, 3), (1, 2, 0, 3), (0, 2, 3, 1), (3, 0, 2, 1)][k])]
    return V2, T


def ref_neighbors(T):
    N = -np.ones((len(T), 4), dtype=int)
    face = {}
    for e, t in enumerate(T):
        for v in range(4):
            face.setdefault(frozenset(int(t[a]) for a in FACES[v]), []).append((e, v))
    for f in face.values():
        if len(f) == 2:
            (a, va), (b, vb) = f
            N[a, va], N[b, vb] = b, a
    return N


@sub(quick=400)
def topology(d):
    """tetrahedral meshes: neighbours, boundary surface with owners, outward closed surface, vertex circulator vs. brute force"""
    V, T = tetmesh(d)
    N = VM.compute_neighbors(T)
    R = ref_neighbors(T)
    ensure(np.array_equal(N, R), "neighbours", got=N, want=R)
    S, O = VM.compute_surface(T, N)
    want = {}
    for e, t in enumerate(T):
        for v in range(4):
            if R[e, v] < 0:
                want[(e, v)] = frozenset(int(t[a]) for a in FACES[v])
    ensure(len(S) == len(want) and len(O) == len(S), "number of boundary triangles", got=len(S), want=len(want))
    seen = set()
    for s, (e, v) in zip(S, O):
        key = (int(e), int(v))
        ensure(key in want and key not in seen, "owner of a boundary triangle", owner=key)
        seen.add(key)
        ensure(frozenset(int(x) for x in s) == want[key], "vertices of a boundary triangle", s=s, owner=key)
        n = np.cross(V[s[1]] - V[s[0]], V[s[2]] - V[s[0]])
        ensure(n @ (V[s[0]] - V[T[e, v]]) > 0, "boundary triangle does not face outwards", s=s)
    close(mg.volume(V, S), vols(V, T).sum(), atol=1e-9, rtol=1e-9, msg="volume enclosed by the boundary")
    c = VM.VertexTetrahedronCirculator(V, T)
    for v in range(len(V)):
        got = sorted(int(x) for x in np.asarray(c.tetrahedra(v)).ravel()) if np.any(T == v) else None
        if got is None:
            continue
        ensure(got == [e for e in range(len(T)) if v in T[e]], "tetrahedra around a vertex", v=v, got=got)


@sub(quick=200)
def beams(d):
    """box meshes of any resolution: positive elements that fill the box without gaps; boundary is the box surface"""
    n = [d.int(2, 4) for _ in range(3)]
    n[d.int(0, 2)] = d.int(2, 9)
    I, J, K = n
    s = d(length(-4, 4))
    w, h, dd = s * d(pos(0.1, 5)), s * d(pos(0.1, 5)), s * d(pos(0.1, 5))
    V, T = VM.create_beam(I, J, K, w, h, dd)
    ensure(len(V) == I * J * K and len(T) == 5 * (I - 1) * (J - 1) * (K - 1), "number of nodes and elements")
    close(V.min(axis=0) / s, -0.5 * np.array([w, h, dd]) / s, msg="lower corner")
    close(V.max(axis=0) / s, 0.5 * np.array([w, h, dd]) / s, msg="upper corner")
    grid = {tuple(np.round((v / np.array([w, h, dd]) + 0.5) * (np.array([I, J, K]) - 1), 6)) for v in V}
    ensure(grid == {(float(i), float(j), float(k)) for i in range(I) for j in range(J) for k in range(K)}, "nodes form a regular grid")
    x = vols(V, T)
    ensure(np.all(x > 0), "an element is inverted or flat", min=x.min())
    close(x.sum() / s ** 3, w * h * dd / s ** 3, rtol=1e-9, msg="volume of the elements")
    close(VM.compute_volumes(V, T) / s ** 3, x / s ** 3, rtol=1e-9, atol=1e-12, msg="compute_volumes")
    S, _ = VM.compute_surface(T, VM.compute_neighbors(T))
    ensure(not mg.edges_closed(S), "boundary is not a closed surface: " + mg.edges_closed(S))
    close(mg.area(V, S) / s ** 2, 2 * (w * h + h * dd + w * dd) / s ** 2, rtol=1e-9, msg="area of the boundary")
    ensure(mg.euler(V, S) == 2, "boundary is not a sphere")
    T2 = VM.create_tetrahedron_array_from_cube_mesh(I, J, K)
    ensure(np.array_equal(T, T2), "elements of a beam are those of its cube mesh")


@sub(quick=24)
def large(d):
    """meshes of up to 8000 elements with shuffled node and element numbers: neighbours, boundary, vertex lookup vs. brute force"""
    n = [d.int(2, 12) for _ in range(3)]
    V, T = VM.create_beam(*n, 1.0, 1.0, 1.0)
    rng = np.random.default_rng(d.int(0, 10 ** 6))
    perm = rng.permutation(len(V))
    W = np.empty_like(V)
    W[perm] = V
    T = perm[T][rng.permutation(len(T))]
    even = np.array([(0, 1, 2, 3), (1, 2, 0, 3), (0, 2, 3, 1), (3, 0, 2, 1)])[rng.integers(0, 4, len(T))]
    T = np.take_along_axis(T, even, axis=1).astype(d.pick([np.int32, np.int64]))
    d.nontrivial(len(T) > 200)
    N = VM.compute_neighbors(T)
    R = ref_neighbors(T)
    ensure(np.array_equal(N, R), "neighbours", at=np.argwhere(N != R)[:3])
    S, O = VM.compute_surface(T, N)
    own = np.argwhere(R < 0)
    ensure(sorted(map(tuple, O.tolist())) == sorted(map(tuple, own.tolist())), "owners of the boundary triangles")
    ensure(not mg.edges_closed(S), "boundary is not a closed surface: " + mg.edges_closed(S))
    close(mg.volume(W, S), 1.0, rtol=1e-9, msg="volume enclosed by the boundary")
    c = VM.VertexTetrahedronCirculator(W, T)
    around = {}
    for e, t in enumerate(T.tolist()):
        for v in t:
            around.setdefault(v, []).append(e)
    for v in range(len(W)):
        got = sorted(int(x) for x in np.asarray(c.tetrahedra(v)).ravel())
        ensure(got == around[v], "tetrahedra around a vertex", v=v, got=got, want=around[v])


@sub(quick=100)
def from_grid(d):
    """grids with values: nodes, values and elements of the tetrahedral mesh match the grid"""
    n = list(d(st.permutations([d.int(2, 3), d.int(2, 5), d.int(3, 7)])))
    mn = d(vec(3, -3, 3))
    mx = mn + np.array([d(pos(0.2, 3)) for _ in range(3)])
    g = GRID.Grid(mn, mx, *n)
    GRID.eval_on_grid(g, lambda p: p[0] + 2 * p[1] - p[2])
    V, T, A = VM.from_grid3d(g)
    close(V, GRID.get_nodes_array(g), msg="nodes")
    close(np.asarray(A).ravel(), V @ np.array([1.0, 2.0, -1.0]), atol=1e-9, msg="values")
    x = vols(V, T)
    ensure(np.all(x > 0), "an element is inverted or flat")
    close(x.sum(), np.prod(mx - mn), rtol=1e-9, msg="volume")
    A[:] = 0
    ensure(np.any(g.values != 0), "the returned values alias the grid")


@sub(quick=200)
def volumes(d):
    """meshes with elements of both orientations: volumes are the signed volumes"""
    V, T = tetmesh(d)
    for e in range(len(T)):
        if d.bool():
            T[e] = T[e][[1, 0, 2, 3]]
    close(VM.compute_volumes(V, T), vols(V, T), atol=1e-12, rtol=1e-9, msg="volumes")


@sub(quick=200)
def surfaces(d):
    """element surfaces (with and without shrinking): four outward triangles around each element, about its centroid"""
    V, T = tetmesh(d)
    F = VM.to_triangles(T)
    ensure(len(F) == 4 * len(T), "four triangles per element")
    for e in range(len(T)):
        f = F[4 * e:4 * e + 4]
        ensure(set(map(int, f.ravel())) == set(map(int, T[e])) and not mg.edges_closed(f), "surface of an element", f=f, t=T[e])
        close(mg.volume(V, f), vols(V, T[e:e + 1])[0], rtol=1e-8, msg="element surface is outward")
    s = d(pos(0.2, 1.0)) if d.int(0, 3) else d.pick([1.0, 1.5, 2.0, 0.01])
    W, G = VM.to_tetrahedrons(V, T, s)
    ensure(len(W) == 4 * len(T) and len(G) == 4 * len(T), "sizes")
    for e in range(len(T)):
        P = V[T[e]]
        c = P.mean(axis=0)
        close(W[4 * e:4 * e + 4], c + s * (P - c), atol=1e-9, msg="shrunk element")
        g = G[4 * e:4 * e + 4]
        ensure(set(map(int, g.ravel())) == set(range(4 * e, 4 * e + 4)) and not mg.edges_closed(g), "surface of a shrunk element")
        close(mg.volume(W, g), s ** 3 * vols(V, T[e:e + 1])[0], rtol=1e-7, msg="shrunk element surface is outward")


def check_subdivision(V, T):
    V0, T0 = V.copy(), T.copy()
    W, U = VM.create_loop_subdivision(V, T)
    ensure(np.array_equal(V, V0) and np.array_equal(T, T0), "the input mesh was modified")
    ensure(len(U) == 8 * len(T), "eight elements per element")
    close(W[:len(V)], V, msg="original vertices come first")
    edges = {tuple(sorted((int(t[a]), int(t[b])))) for t in T for a in range(4) for b in range(a)}
    ensure(len(W) == len(V) + len(edges), "one new vertex per edge", got=len(W) - len(V), want=len(edges))
    mids = sorted(tuple(np.round(0.5 * (V[i] + V[j]), 9)) for i, j in edges)
    close(np.array(sorted(tuple(np.round(w, 9)) for w in W[len(V):])), np.array(mids), atol=1e-7, msg="edge midpoints")
    x = vols(W, U)
    parent = np.sort(np.repeat(vols(V, T) / 8.0, 8))
    close(np.sort(x), parent, atol=1e-10, rtol=1e-7, msg="volumes of the children")
    S0, _ = VM.compute_surface(T, VM.compute_neighbors(T))
    S1, _ = VM.compute_surface(U, VM.compute_neighbors(U))
    ensure(len(S1) == 4 * len(S0), "boundary is not refined 4:1 (cracks or overlaps)", got=len(S1), want=4 * len(S0))
    close(mg.area(W, S1), mg.area(V, S0), rtol=1e-8, msg="boundary area")
    close(mg.volume(W, S1), mg.volume(V, S0), atol=1e-9, rtol=1e-8, msg="enclosed volume")


@sub(quick=150)
def subdivision(d):
    """meshes: 8 positive children of equal volume per element, midpoints shared, boundary refined 4:1, shape kept"""
    check_subdivision(*tetmesh(d))


@sub(quick=16)
def large_subdivision(d):
    """meshes of up to a thousand vertices with shuffled numbers are subdivided like small ones; non-trivial with more than 256 vertices"""
    n = [d.int(2, 14), d.int(3, 12), 9]
    V, T = VM.create_beam(n[0], n[1], min(n[2], max(2, 900 // (n[0] * n[1]))), 2.0, 1.5, 1.0)
    perm = np.random.default_rng(d.int(0, 10 ** 6)).permutation(len(V))
    W = np.empty_like(V)
    W[perm] = V
    d.nontrivial(len(V) > 256)
    check_subdivision(W, perm[T].astype(d.pick([np.int32, np.int64])))


if __name__ == "__main__":
    sys.exit(main("C19", ["positively oriented, face-conforming tetrahedral meshes"]))
