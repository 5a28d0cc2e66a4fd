"""C05 - frames, orderings and orthonormalisation helpers."""
from pbt import *
import rainbow.math.vector3 as V3
import rainbow.math.matrix3 as M3


@sub(quick=1000)
def frames(d):
    """normals of any direction and length 1e-6..1e6: make_orthonormal_vectors gives a right-handed frame along n"""
    n = d(unit()) * d(length())
    n0 = n.copy()
    d.label("ties" if len(set(np.abs(n))) < 3 else "no ties")
    t, b, m = V3.make_orthonormal_vectors(n)
    F = np.array([t, b, m])
    close(F @ F.T, np.eye(3), atol=1e-9, msg="orthonormal", n=n)
    close(m, n / np.linalg.norm(n), atol=1e-9, msg="third vector is the unit normal", n=n)
    close(np.cross(t, b), m, atol=1e-9, msg="right handed: n = t x b", n=n)
    close(n, n0, atol=0, rtol=0, msg="input changed")
    close(V3.unit(n), n / np.linalg.norm(n), msg="unit")
    a = d(vec(3, -10, 10))
    close(V3.cross(n, a), [n[1] * a[2] - n[2] * a[1], n[2] * a[0] - n[0] * a[2], n[0] * a[1] - n[1] * a[0]], atol=1e-12 * np.abs(n).max(), msg="cross product", a=n, b=a)
    k = d.int(1, 4)
    A, B = np.array([d(vec(3, -3, 3)) for _ in range(k)]).T, np.array([d(vec(3, -3, 3)) for _ in range(k)]).T
    close(V3.cross(A, B), np.array([[A[1, j] * B[2, j] - A[2, j] * B[1, j], A[2, j] * B[0, j] - A[0, j] * B[2, j], A[0, j] * B[1, j] - A[1, j] * B[0, j]] for j in range(k)]).T,
          atol=1e-12, msg="cross products of columns")
    close(V3.norm(n), np.sqrt(np.sum(n * n)), rtol=1e-12, atol=0, msg="norm")


def coarse():
    return st.lists(st.one_of(st.integers(-1, 1).map(float), st.floats(-3, 3)), min_size=3, max_size=3).map(np.array)


@sub(quick=1500)
def order(d):
    """triples of vectors with many equal components: less/greater/(not strict) is the lexicographic total order"""
    a, b, c = d(coarse()), d(coarse()), d(coarse())
    if d.bool():
        k = d.int(0, 3)
        b = np.concatenate((a[:k], b[k:]))
    ta, tb = tuple(a), tuple(b)
    d.label("equal" if ta == tb else "share prefix" if ta[0] == tb[0] else "differ first")
    for x, y, f, g in ((V3.less, lambda p, q: p < q, a, b), (V3.greather, lambda p, q: p > q, a, b),
                       (V3.less_than_equal, lambda p, q: p <= q, a, b),
                       (V3.greather_than_equal, lambda p, q: p >= q, a, b)):
        ensure(bool(x(f, g)) == y(ta, tb), f"{x.__name__} is not lexicographic", a=a, b=b)
        ensure(bool(x(g, f)) == y(tb, ta), f"{x.__name__} is not lexicographic", a=b, b=a)


@sub(quick=600)
def max_component(d):
    """vectors with and without ties: max_abs_component is an index of a largest component in magnitude"""
    a = d(coarse())
    k = V3.max_abs_component(a)
    ensure(k in (0, 1, 2), "index", k=k)
    ensure(abs(a[k]) == np.max(np.abs(a)), "not the largest component", a=a, k=k)


@sub(quick=600)
def orthonormalize(d):
    """matrices with independent first rows: result is a rotation whose rows span the same flag; input is untouched"""
    r0, r1, r2 = d(vec()), d(vec()), d(vec())
    if np.linalg.norm(np.cross(r0, r1)) < 1e-3 * max(1.0, np.linalg.norm(r0)) * max(1.0, np.linalg.norm(r1)):
        r0, r1 = np.array([1.0, 2.0, 3.0]) + 1e-3 * r0, np.array([0.0, 1.0, -1.0]) + 1e-3 * r1
    u, v = d(length(-8, 8)), d(length(-8, 8))                 # rows of any length
    r0, r1 = u * r0, v * r1
    A = np.array([r0, r1, r2])
    A0 = A.copy()
    B = M3.ortonormalize(A)
    close(A, A0, atol=0, rtol=0, msg="input changed")
    close(B @ B.T, np.eye(3), atol=1e-8, msg="orthonormal rows")
    close(np.linalg.det(B), 1.0, atol=1e-8, msg="right handed")
    close(B[0], r0 / np.linalg.norm(r0), atol=1e-8, msg="first row keeps its direction")
    ensure(np.dot(B[1], r1) > 0, "second row points to the side of the old one")
    close(np.dot(B[2], r1 / v), 0.0, atol=1e-7, msg="third row orthogonal to the first two rows")


@sub(quick=200)
def constructors(d):
    """make / constants / random vectors within their range"""
    x, y, z, w = (d(num()) for _ in range(4))
    close(V3.make(x, y, z), [x, y, z], atol=0), close(V3.make_vec4(x, y, z, w), [x, y, z, w], atol=0)
    close(V3.zero(), np.zeros(3)), close(V3.ones(), np.ones(3))
    close(np.array([V3.i(), V3.j(), V3.k()]), np.eye(3), msg="axes")
    lo, hi = min(x, y), max(x, y)
    r = V3.rand(lo, hi)
    ensure(r.shape == (3,) and np.all(r >= lo) and np.all(r <= hi), "rand range", r=r, lo=lo, hi=hi)
    z0 = V3.zero()
    z0[0] = 5
    close(V3.zero(), np.zeros(3), msg="constants are fresh arrays")


if __name__ == "__main__":
    sys.exit(main("C05"))
