"""C04 - coordinate-system transforms form the group of rigid motions."""
from pbt import *
import rainbow.math.coordsys as X


def xf(d):
    q, r = d(quat()), d(vec(3, -20, 20))
    return X.make(r, q), ref_matrix(q), r


@sub(quick=700)
def group_laws(d):
    """three random rigid transforms, a point, a vector, a matrix: action, concat, inverse, from-to vs 4x4 algebra"""
    (A, Ra, ra), (B, Rb, rb), (C, Rc, rc) = xf(d), xf(d), xf(d)
    p, v = d(vec(3, -20, 20)), d(vec(3, -20, 20))
    d.nontrivial(np.linalg.norm(ra) > 0 and not np.allclose(Ra, Rb))
    T = 1e-10
    was = [np.concatenate([Z.q, Z.r]) for Z in (A, B, C)]
    close(X.xform_point(A, p), Ra @ p + ra, atol=T, msg="xform_point")
    close(X.xform_vector(A, v), Ra @ v, atol=T, msg="xform_vector ignores the translation")
    M = np.array([p, v, ra] + [d(vec()) for _ in range(d.int(0, 2))]).T          # columns are vectors
    close(X.xform_matrix(A, M), Ra @ M, atol=T, msg="xform_matrix")
    BA = X.concat(B, A)
    close(X.xform_point(BA, p), Rb @ (Ra @ p + ra) + rb, atol=T, msg="concat(B,A) applies A first")
    close(X.xform_vector(BA, v), Rb @ Ra @ v, atol=T, msg="concat on vectors")
    l, r = X.concat(C, X.concat(B, A)), X.concat(X.concat(C, B), A)
    close(ref_matrix(l.q), ref_matrix(r.q), atol=T, msg="associative (rotation)")
    close(l.r, r.r, atol=T, msg="associative (translation)")
    I = X.inverse(A)
    close(X.xform_point(I, X.xform_point(A, p)), p, atol=T, msg="inverse undoes")
    close(X.xform_point(A, X.xform_point(I, p)), p, atol=T, msg="inverse is two sided")
    E = X.concat(I, A)
    close(ref_matrix(E.q), np.eye(3), atol=T), close(E.r, np.zeros(3), atol=T, msg="inverse*A = identity")
    F = X.make_coordsys_from_to(A, B)
    close(X.xform_point(F, p), Rb.T @ (Ra @ p + ra - rb), atol=T, msg="from-to: A coords to B coords")
    close(X.xform_vector(F, v), Rb.T @ Ra @ v, atol=T, msg="from-to on vectors")
    close(np.linalg.norm(BA.q), 1.0), close(np.linalg.norm(F.q), 1.0), close(np.linalg.norm(I.q), 1.0)
    for Z, w in zip((A, B, C), was):
        close(np.concatenate([Z.q, Z.r]), w, atol=0, rtol=0, msg="a transform changed by using it")


@sub(quick=200)
def rounded_quaternions(d):
    """rotations known to 5..9 decimals only: chains and differences of them have unit quaternions all the same; non-trivial if the input is not a unit quaternion"""
    k = d.int(5, 9)
    S = [X.make(d(vec(3, -20, 20)), np.round(d(quat()), k)) for _ in range(3)]
    d.nontrivial(max(abs(np.linalg.norm(Z.q) - 1) for Z in S) > 1e-9)
    acc = X.CoordSys()
    for i in range(d.int(1, 30)):
        acc = X.concat(S[i % 3], acc)
        close(np.linalg.norm(acc.q), 1.0, atol=1e-13, rtol=0, msg="rotation of a chain is not unit")
    F = X.make_coordsys_from_to(S[0], S[1])
    close(np.linalg.norm(F.q), 1.0, atol=1e-13, rtol=0, msg="relative rotation is not unit")
    close(ref_matrix(F.q), ref_matrix(S[1].q).T @ ref_matrix(S[0].q), atol=1e-3, msg="relative rotation")


@sub(quick=200)
def long_chains(d):
    """chains of 5..60 concatenations keep a unit rotation and agree with matrices; distances are preserved"""
    n = d.int(5, 60)
    A, Ra, ra = xf(d)
    B, Rb, rb = xf(d)
    acc, R, r = X.CoordSys(), np.eye(3), np.zeros(3)
    for i in range(n):
        S, Rs, rs = (A, Ra, ra) if i % 3 else (B, Rb, rb)
        acc = X.concat(S, acc)
        R, r = Rs @ R, Rs @ r + rs
    close(np.linalg.norm(acc.q), 1.0, msg="rotation stays unit")
    close(ref_matrix(acc.q), R, atol=1e-7, msg="chain rotation")
    close(acc.r, r, atol=1e-6, msg="chain translation")
    p, s = d(vec()), d(vec())
    close(np.linalg.norm(X.xform_point(acc, p) - X.xform_point(acc, s)), np.linalg.norm(p - s), atol=1e-7,
          msg="rigid motions keep distances")
    J = X.CoordSys()
    close(X.xform_point(J, p), p, msg="default is the identity")


if __name__ == "__main__":
    sys.exit(main("C04"))
