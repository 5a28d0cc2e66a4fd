"""C01 - rotation algebra: quaternions, matrices and their array versions all describe the same rotation."""
from pbt import *
import rainbow.math.quaternion as Q
import rainbow.math.matrix3 as M3
import rainbow.math.vector3 as V3


@sub(quick=600)
def product_and_rotate(d):
    """random unit/non-unit quaternion pairs + vector; prod/conjugate/rotate/to_matrix vs. an independent algebra"""
    a, b = d(quat()), d(quat())
    r = d(vec(3, -100, 100))
    a0, b0, r0 = a.copy(), b.copy(), r.copy()
    d.nontrivial(not np.allclose(np.abs(a), np.abs(b)) and np.linalg.norm(r) > 0)
    ab = Q.prod(a, b)
    close(ab, ref_qmul(a, b), msg="quaternion product")
    close(Q.to_matrix(ab), ref_matrix(a) @ ref_matrix(b), msg="product of rotations composes")
    close(Q.to_matrix(a), ref_matrix(a), msg="to_matrix")
    close(Q.rotate(a, r), ref_matrix(a) @ r, atol=1e-8, msg="rotate")
    close(Q.rotate(ab, r), Q.rotate(a, Q.rotate(b, r)), atol=1e-8, msg="rotate by a product")
    close(Q.prod(a, Q.conjugate(a)), [1, 0, 0, 0], msg="q q* = 1")
    close(Q.rotate(Q.conjugate(a), Q.rotate(a, r)), r, atol=1e-8, msg="conjugate undoes the rotation")
    close(Q.prod(Q.identity(), a), a, msg="identity left")
    close(Q.prod(a, Q.identity()), a, msg="identity right")
    close(Q.conjugate(Q.conjugate(a)), a, atol=0, rtol=0, msg="conjugate twice")
    R = Q.to_matrix(a)
    close(R.T @ R, np.eye(3), msg="rotation matrix orthogonal")
    close(np.linalg.det(R), 1.0, msg="rotation matrix det")
    close(a, a0, atol=0, rtol=0, msg="input changed")
    close(b, b0, atol=0, rtol=0, msg="input changed")
    close(r, r0, atol=0, rtol=0, msg="input changed")


@sub(quick=400)
def general_quaternions(d):
    """quaternions of any length: product laws (associative, anti-involution, norm), to_matrix uses the unit part"""
    a, b, c = d(vec(4)), d(vec(4)), d(vec(4))
    if d.bool():
        a = d(unit(4)) * d(length(-3, 3))
    d.nontrivial(min(np.linalg.norm(x) for x in (a, b, c)) > 1e-3)
    close(Q.prod(a, b), ref_qmul(a, b), msg="product")
    close(Q.prod(Q.prod(a, b), c), Q.prod(a, Q.prod(b, c)), atol=1e-7, rtol=1e-9, msg="associative")
    close(Q.conjugate(Q.prod(a, b)), Q.prod(Q.conjugate(b), Q.conjugate(a)), msg="(ab)* = b*a*")
    close(np.linalg.norm(Q.prod(a, b)), np.linalg.norm(a) * np.linalg.norm(b), msg="norm multiplicative")
    if np.linalg.norm(a) > 1e-6:
        close(Q.unit(a), a / np.linalg.norm(a), msg="unit")
        close(Q.to_matrix(a), ref_matrix(a / np.linalg.norm(a)), msg="to_matrix of non-unit")
    e, s = d(unit(4)), d(length(-60, 60))
    close(Q.unit(s * e), e, msg="unit of any magnitude", s=s)
    close(Q.to_matrix(s * e), ref_matrix(e), msg="to_matrix of any magnitude", s=s)
    close(Q.unit(np.zeros(4)), [1, 0, 0, 0], msg="unit of zero")
    close(Q.hat(a) @ a, 0.0, atol=1e-8, msg="hat is orthogonal")
    close(np.linalg.norm(Q.hat(a)), np.linalg.norm(a), msg="hat keeps the length")
    v = a[:3]
    close(Q.from_vector3(v), [0, v[0], v[1], v[2]], msg="from_vector3")
    close(Q.from_array(a), a, atol=0, msg="from_array")
    for f in (Q.from_array, Q.unit, Q.conjugate, Q.hat):
        x = a.copy()
        f(x)[:] = 7.0
        close(x, a, atol=0, rtol=0, msg="writing to the result of " + f.__name__ + " changed its argument")
    close(Q.make(*a), a, atol=0, msg="make")


@sub(quick=300)
def array_versions(d):
    """batches of 0..6 vectors/quaternions: rotate_array/prod_array agree with the one-at-a-time version"""
    q = d(quat())
    n = d.pick([1, 2, 3, 4, 5, 6, 17])
    rs = np.array([d(vec(3, -50, 50)) for _ in range(n)]).reshape(n, 3)
    qs = np.array([d(vec(4)) for _ in range(n)]).reshape(n, 4)
    d.nontrivial(n > 1)
    rs0 = rs.copy()
    out = Q.rotate_array(q, rs)
    close(out, np.array([ref_matrix(q) @ r for r in rs]), atol=1e-8, msg="rotate_array")
    close(rs, rs0, atol=0, rtol=0, msg="input changed")
    close(Q.prod_array(q, qs), np.array([ref_qmul(q, x) for x in qs]), msg="prod_array single*array")
    close(Q.prod_array(qs, q), np.array([ref_qmul(x, q) for x in qs]), msg="prod_array array*single")


@sub(quick=500)
def axis_rotations(d):
    """angle in [-2pi,2pi], any axis (any length): Ru/Rx/Ry/Rz of quaternions and of matrices equal Rodrigues"""
    th = d(angle())
    u = d(unit())
    s = d(length(-4, 4))
    d.nontrivial(abs(th) > 1e-5)
    R = ref_rodrigues(th, u)
    close(M3.Ru(th, s * u), R, msg="matrix Ru")
    close(ref_matrix(Q.Ru(th, s * u)), R, msg="quaternion Ru")
    close(np.linalg.norm(Q.Ru(th, s * u)), 1.0, msg="Ru unit")
    for i, (fq, fm) in enumerate([(Q.Rx, M3.Rx), (Q.Ry, M3.Ry), (Q.Rz, M3.Rz)]):
        E = ref_rodrigues(th, np.eye(3)[i])
        close(fm(th), E, msg=f"matrix axis {i}")
        close(ref_matrix(fq(th)), E, msg=f"quaternion axis {i}")
    close(Q.Ru(th, u), np.concatenate(([np.cos(th / 2)], np.sin(th / 2) * u)), msg="Ru quaternion components")


@sub(quick=300)
def matrices(d):
    """vectors and matrices: star is the cross-product matrix, diag/make/from rows/cols build what they say"""
    v, w = d(vec()), d(vec())
    d.nontrivial(np.linalg.norm(np.cross(v, w)) > 0)
    close(M3.star(v) @ w, np.cross(v, w), msg="star")
    close(V3.cross(v, w), np.cross(v, w), msg="cross")
    close(M3.star(v), -M3.star(v).T, msg="star skew")
    rows = [d(vec()) for _ in range(3)]
    close(M3.make_from_rows(*rows), np.array(rows), msg="rows")
    close(M3.make_from_cols(*rows), np.array(rows).T, msg="cols")
    close(M3.make(*np.array(rows).ravel()), np.array(rows), msg="make")
    close(M3.diag(*v), np.diag(v), msg="diag")
    close(M3.diag_from_array(v), np.diag(v), msg="diag_from_array")
    close(M3.identity(), np.eye(3)), close(M3.zero(), np.zeros((3, 3))), close(M3.ones(), np.ones((3, 3)))


@sub(quick=60)
def random_rotations(d):
    """random quaternions have unit length, are float arrays of their own and point all ways; non-trivial always"""
    state = np.random.get_state()
    np.random.seed(d.int(0, 10 ** 6))
    try:
        qs = [Q.rand() for _ in range(40)]
    finally:
        np.random.set_state(state)
    d.nontrivial(True)
    for q in qs:
        ensure(isinstance(q, np.ndarray) and q.shape == (4,) and q.dtype == np.float64, "a random quaternion is no quaternion", got=q)
    A = np.array(qs)
    close(np.linalg.norm(A, axis=1), np.ones(40), atol=1e-12, msg="length of a random quaternion")
    ensure((A.min(axis=0) < 0).all() and (A.max(axis=0) > 0).all(), "random quaternions do not point all ways", low=A.min(axis=0), high=A.max(axis=0))
    ensure(len(np.unique(A, axis=0)) == 40, "random quaternions repeat")


if __name__ == "__main__":
    sys.exit(main("C01"))
