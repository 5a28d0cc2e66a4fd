from pbt import *
import rainbow.geometry.tetrahedron as TET


def tet(d, flat=True):
    """a positively oriented tetrahedron of any size, and its size"""
    B = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]], dtype=float)
    X = B + 0.25 * np.array([d(vec(3, -1, 1)) for _ in range(4)])
    E = X[1:] - X[0]
    if np.linalg.det(E) < 0.05:
        X = B
    X = X * np.array([d(pos(0.3, 3)) for _ in range(3)])
    if flat and d.int(0, 2) == 0:                             # slivers, needles and flat ones
        X[:, d.int(0, 2)] *= 10.0 ** -d.int(1, 3)
        d.label("flat")
    X = X @ ref_matrix(d(quat())).T
    s = d(length(-6, 3))
    return s * (X + d(vec(3))), s


@sub(quick=800)
def orientation(d):
    """tetrahedra of both orientations: signed volume, its sign under node permutations, left-orientation predicate"""
    X, s = tet(d)
    p = list(d(st.permutations([0, 1, 2, 3])))
    sgn = np.linalg.det(np.eye(4)[p])
    want = np.linalg.det(X[1:] - X[0]) / 6.0 * sgn
    Y = X[p]
    close(TET.compute_signed_volume(*Y), want, atol=1e-12 * s ** 3, rtol=1e-8, msg="signed volume")
    ensure(bool(TET.is_left_orientation(*Y)) == (want < 0), "left orientation")
    d.label("left" if want < 0 else "right")


@sub(quick=600)
def circumscribed(d):
    """non-flat tetrahedra of both orientations: the circumscribed sphere passes through all four nodes"""
    X, s = tet(d)
    Y = X[list(d(st.permutations([0, 1, 2, 3])))]
    c, r = TET.compute_circumscribed_sphere(*Y)
    close(np.linalg.norm(Y - c, axis=1) / s, np.full(4, float(r) / s), atol=1e-6, rtol=1e-5, msg="distance of the nodes to the centre, relative to the size")


@sub(quick=600)
def inscribed(d):
    """positively oriented tetrahedra: the inscribed sphere touches the four face planes from inside; r = 3 V / A"""
    X, s = tet(d)
    c, r = TET.compute_inscribed_sphere(*X)
    A, dist = 0.0, []
    for a, b, e, o in ((1, 2, 3, 0), (0, 2, 3, 1), (0, 1, 3, 2), (0, 1, 2, 3)):
        n = np.cross(X[b] - X[a], X[e] - X[a])
        A += 0.5 * np.linalg.norm(n)
        n = n / np.linalg.norm(n)
        if n @ (X[o] - X[a]) < 0:
            n = -n
        dist.append(n @ (c - X[a]))                           # positive: on the inner side
    V = np.linalg.det(X[1:] - X[0]) / 6.0
    close(abs(float(r)) / s, 3 * V / A / s, atol=1e-8, rtol=1e-6, msg="radius of the inscribed sphere, relative to the size")
    close(np.array(dist) / s, np.full(4, 3 * V / A / s), atol=1e-8, rtol=1e-6, msg="distance of the centre to the faces")


@sub(quick=60)
def sample_points(d):
    """layers 2..26: every barycentric lattice point exactly once; interior ones are exactly the strictly positive ones"""
    N = d.int(2, 9) if d.int(0, 4) else d.int(10, 26)
    S = TET.generate_sample_points(N)
    L = sorted(tuple(int(round(x * (N - 1))) for x in w) for w in S)
    close(S * (N - 1), np.round(S * (N - 1)), atol=1e-9, msg="lattice")
    want = sorted((i, j, k, N - 1 - i - j - k) for i in range(N) for j in range(N - i) for k in range(N - i - j))
    ensure(L == want, "sample points are not the barycentric lattice", N=N)
    G = TET.generate_interior_sample_points(N)
    close(G * (N - 1), np.round(G * (N - 1)), atol=1e-9, msg="interior lattice points")
    LG = sorted(tuple(int(round(x * (N - 1))) for x in w) for w in G)
    ensure(LG == [w for w in want if min(w) > 0], "interior sample points are not the strictly interior lattice points", N=N, got=LG)
    try:
        TET.generate_sample_points(d.int(-1, 1))
    except ValueError:
        return
    fail("less than two layers accepted")


if __name__ == "__main__":
    sys.exit(main("C20", ["tetrahedra with heights down to 1/1000 of their length, sizes 1e-6 to 1e3"]))
