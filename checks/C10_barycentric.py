from pbt import *
import rainbow.geometry.barycentric as B


def simplex(d, n):
    """n points of any size and orientation (generic, lattice points, corners of boxes), not too flat; returns the points and their size"""
    kind = d.pick(["generic", "generic", "lattice", "box corner"])
    s = d(length(-7, 4))
    for _ in range(20):
        if kind == "lattice":
            X = np.array([[float(d.int(-2, 2)) for _ in range(3)] for _ in range(n)])
        elif kind == "box corner":
            P = np.vstack([np.zeros(3), np.diag([d(num(0.3, 3)) * d.pick([1.0, -1.0]) for _ in range(3)])])
            X = P[list(d(st.permutations([0, 1, 2, 3])))[:n]]
        else:
            X = np.array([d(vec(3, -5, 5)) for _ in range(n)])
        E = X[1:] - X[0]
        sv = np.linalg.svd(E, compute_uv=False)
        if sv[-1] > 0.05 * sv[0] and sv[-1] > 1e-2:
            d.label(kind)
            return s * (X + (d(vec(3, -2, 2)) if d.bool() else 0.0)), s
    return s * np.eye(4, 3)[:n], s


def weights(d, n):
    kind = d.pick(["inside", "free", "boundary", "near"])
    d.label(kind)
    if kind == "free":
        w = d(vec(n, -3, 3))
        w[0] = 1.0 - np.sum(w[1:])
    else:
        w = np.array([d(pos(0.02, 1.0)) for _ in range(n)])
        if kind == "boundary":
            for i in range(n - 1):
                if d.bool():
                    w[d.int(0, n - 1)] = 0.0
            if w.sum() == 0:
                w[0] = 1.0
        w /= w.sum()
        if kind == "near":
            i, j = d.int(0, n - 1), d.int(0, n - 1)
            s = w[i] + d.pick([1e-4, 1e-2])
            w[i] -= s
            w[(i + 1) % n] += s
    return w


FN = {2: (B.compute_barycentric_edge, B.is_inside_edge),
      3: (B.compute_barycentric_triangle, B.is_inside_triangle),
      4: (B.compute_barycentric_tetrahedron, B.is_inside_tetrahedron)}


@sub(quick=1500)
def weights_recovered(d):
    """edges, triangles, tetrahedra of either orientation; a point given by its weights (inside, outside, on a face)"""
    n = d.pick([2, 3, 4])
    X, s = simplex(d, n)
    w = weights(d, n)
    p = w @ X
    if n == 2 and d.bool():
        u = X[1] - X[0]
        o = np.cross(u, d(unit()))
        p = p + d(num(-2, 2)) * o                      # off the line: weights of the closest point
    if n == 3 and d.bool():
        nn = np.cross(X[1] - X[0], X[2] - X[0]) / s
        p = p + d(num(-2, 2)) * nn
    f, inside = FN[n]
    got = np.array(f(*X, p))
    close(got, w, atol=1e-8, rtol=1e-8, msg=f"barycentric coordinates of a {n}-simplex", X=X, p=p)
    m = w.min()
    if m > 1e-6:
        ensure(inside(*got), "an interior point is reported outside", w=w, got=got, X=X, p=p)
    if m < -1e-6:
        ensure(not inside(*got), "an outside point is reported inside", w=w, got=got, X=X, p=p)


@sub(quick=800)
def inside_exact(d):
    """weights that are exact multiples of 1/64 with exact sum 1: inside iff none is negative (boundary included)"""
    n = d.pick([2, 3, 4])
    k = [d.int(-20, 64) if d.int(0, 3) == 0 else d.int(0, 30) for _ in range(n - 1)]
    k.append(64 - sum(k))
    perm = d(st.permutations(list(range(n))))
    k = [k[i] for i in perm]
    w = [x / 64.0 for x in k]
    got = FN[n][1](*w)
    want = all(x >= 0 for x in k)
    d.label("in" if want else "out")
    ensure(bool(got) == want, "inside test disagrees with the sign of the weights", w=w, got=got)


@sub(quick=600)
def derivatives(d):
    """tetrahedra of positive volume: weight gradients are the gradients of the (affine) weights"""
    X, s = simplex(d, 4)
    if np.dot(X[3] - X[0], np.cross(X[1] - X[0], X[2] - X[0])) < 0:
        X[[1, 2]] = X[[2, 1]]
    G = np.array(B.compute_barycentric_derivatives_tetrahedron(*X))
    D = np.linalg.inv(np.vstack([np.ones(4), X.T]))[:, 1:]        # rows: gradient of w_i
    close(G * s, D * s, atol=1e-8, rtol=1e-8, msg="weight gradients, relative to the size", X=X)
    p, h = s * d(vec(3, -5, 5)), s * d(vec(3, -1, 1))
    w0 = np.array(B.compute_barycentric_tetrahedron(*X, p))
    w1 = np.array(B.compute_barycentric_tetrahedron(*X, p + h))
    close(w1 - w0, G @ h, atol=1e-8, rtol=1e-8, msg="weights change along their gradient")


if __name__ == "__main__":
    sys.exit(main("C10", ["simplices with shape ratio >= 0.05"]))
