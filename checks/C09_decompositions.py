"""C09 - polar decomposition, principal components and sinc."""
from pbt import *
import rainbow.math.matrix3 as M3
import rainbow.math.functions as FUNC


def deformation(d):
    """R u S with R a rotation and S symmetric positive definite (stretches 0.05..20)."""
    R, E = ref_matrix(d(quat())), ref_matrix(d(quat()))
    s = np.array([d(st.one_of(st.sampled_from([1.0, 0.5, 2.0]), st.floats(0.05, 20))) for _ in range(3)])
    u = d.pick([1.0, 1.0, 1.0, 1e-3, 1e-6, 1e6])          # units of measurement
    S = u * (E @ np.diag(s) @ E.T)
    return R @ S, R, S, u


@sub(quick=600)
def polar(d):
    """A = R S with stretches 0.05..20, incl. equal stretches: the rotation and the stretch are recovered"""
    A, R, S, u = deformation(d)
    A0 = A.copy()
    r, s = M3.polar_decomposition(A)
    close(r, R, atol=1e-6, msg="rotation", A=A)
    close(s / u, S / u, atol=1e-6, msg="stretch", A=A)
    close(r @ s / u, A / u, atol=1e-7, msg="A = R S")
    close(r.T @ r, np.eye(3), atol=1e-7), close(np.linalg.det(r), 1.0, atol=1e-7, msg="det(R)=1")
    close(s / u, s.T / u, atol=1e-8, msg="symmetric")
    close(A, A0, atol=0, rtol=0, msg="input changed")


@sub(quick=200)
def polar_array(d):
    """batches of 1..5 deformations: the array version equals the single version"""
    As = [deformation(d) for _ in range(d.int(1, 5))]
    rs, ss = M3.polar_decomposition_array(np.array([a[0] for a in As]))
    close(rs, np.array([a[1] for a in As]), atol=1e-6, msg="rotations")
    u = np.array([a[3] for a in As])[:, None, None]
    close(ss / u, np.array([a[2] for a in As]) / u, atol=1e-6, msg="stretches")
    bad = np.array([a[0] for a in As])
    bad[d.int(0, len(bad) - 1)] = 0.0
    try:
        M3.polar_decomposition_array(bad)
    except ValueError:
        return
    fail("a batch with a collapsed deformation was decomposed without complaint")


@sub(quick=200)
def polar_singular(d):
    """a deformation with a collapsed direction is refused with ValueError or decomposed consistently"""
    k = d.int(0, 2)
    s = [0.0 if i == k else float(d.int(1, 4)) for i in range(3)]
    for f, a in ((M3.polar_decomposition, np.diag(s)), (M3.polar_decomposition_array, np.array([np.diag(s)]))):
        try:
            f(a)
        except ValueError:
            continue
        fail("singular matrix was decomposed without complaint")


@sub(quick=500)
def pca(d):
    """point clouds (3..20 points, stretched and rotated): mean, variances and principal directions"""
    n = d.int(4, 20)
    R = ref_matrix(d(quat()))
    sc = np.array([d(st.sampled_from([0.1, 1.0, 3.0, 10.0])) for _ in range(3)])
    P = np.array([d(vec(3, -1, 1)) for _ in range(n)]) * sc @ R.T + d(vec())
    P0 = P.copy()
    C = np.cov(P.T)
    mean, vals, vecs = FUNC.PCA(P)
    close(mean, P.mean(axis=0), msg="mean")
    scale = max(1e-12, np.abs(C).max())
    for k in range(3):
        close(C @ vecs[:, k], vals[k] * vecs[:, k], atol=1e-7 * scale, msg="eigenpair of the covariance")
        close(np.linalg.norm(vecs[:, k]), 1.0, atol=1e-8, msg="unit eigenvector")
    w = np.linalg.eigvalsh(C)
    close(np.sort(vals), w, atol=1e-8 * scale, msg="eigenvalues")
    a = FUNC.direction_of_most_variance(P)
    d.nontrivial(w[2] > 1e-9)
    d.label("clear axis" if w[2] > 1.01 * w[1] else "ambiguous axis")
    ensure(a.shape == (3,), "shape")
    close(np.linalg.norm(a), 1.0, atol=1e-8, msg="unit direction")
    proj = (P - P.mean(axis=0)) @ a
    close(np.sum(proj ** 2) / (n - 1), w[2], atol=1e-7 * scale, msg="variance along the direction is the largest")
    close(P, P0, atol=0, rtol=0, msg="input changed")


@sub(quick=400)
def sinc(d):
    """x in [-50,50] incl. 0, tiny and the series switch-over; scalars and arrays"""
    x = d(st.one_of(st.floats(-50, 50), st.floats(-8, 0).map(lambda e: 10.0 ** e), st.floats(-8, 0).map(lambda e: -10.0 ** e), st.sampled_from([0.0, 1e-12, 9.9e-5, 1e-4, 1.01e-4, 1e-3, -1e-4, -5e-5])))
    want = np.sinc(x / np.pi)
    close(FUNC.sinc(x if x != 0 else np.float64(0.0)), want, atol=3e-16, rtol=3e-15, msg="sinc", x=x)
    close(FUNC.sinc(np.array([x, 2 * x])), np.sinc(np.array([x, 2 * x]) / np.pi), atol=3e-16, rtol=3e-15, msg="sinc array")


if __name__ == "__main__":
    sys.exit(main("C09"))
