"""Helpers to judge generated rigid-body scenes: world geometry, convex contact depth, snapshots."""
from pbt import np, ref_matrix
from scipy.spatial import ConvexHull
from scipy.optimize import linprog


def world(b):
    return np.asarray(b.shape.mesh.V) @ ref_matrix(b.q).T + b.r


def volume(V, T):
    V, T = np.asarray(V), np.asarray(T)
    return float(np.einsum("ij,ij->i", V[T[:, 0]], np.cross(V[T[:, 1]], V[T[:, 2]])).sum() / 6)


class Convex:
    def __init__(self, W):
        h = ConvexHull(W)
        self.eq, self.volume, self.lo, self.hi = h.equations, h.volume, W.min(axis=0), W.max(axis=0)


def depth(A, B):
    """radius of the largest ball in the intersection of two convex bodies (negative if they are apart)"""
    M = np.vstack([A.eq[:, :3], B.eq[:, :3]])
    b = -np.hstack([A.eq[:, 3], B.eq[:, 3]])
    res = linprog([0, 0, 0, -1], A_ub=np.hstack([M, np.ones((len(M), 1))]), b_ub=b, bounds=[(None, None)] * 4)
    return -res.fun


def pair_depths(C, tol):
    """depth of all pairs whose boxes come within tol of each other"""
    lo, hi = np.array([c.lo for c in C]), np.array([c.hi for c in C])
    for i in range(len(C)):
        cand = np.nonzero(((lo[i] <= hi[:i] + tol) & (lo[:i] <= hi[i] + tol)).all(axis=1))[0]
        for j in cand:
            yield i, int(j), depth(C[i], C[int(j)])
