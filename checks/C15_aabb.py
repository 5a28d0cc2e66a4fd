from pbt import *
from rainbow.geometry.aabb import AABB


def pts(d, k=None):
    n = k or d.int(1, 8)
    return np.array([d(vec(3, -4, 4)) for _ in range(n)])


@sub(quick=800)
def tight_box(d):
    """point sets: the box is the smallest axis-aligned box containing every point"""
    P = pts(d)
    arg = P if d.bool() else P.tolist()
    b = AABB.create_from_vertices(arg)
    close(b.min_point, P.min(axis=0), atol=0, rtol=0, msg="lower corner")
    close(b.max_point, P.max(axis=0), atol=0, rtol=0, msg="upper corner")


@sub(quick=1500)
def overlap(d):
    """pairs of boxes (integer corners incl. touching) and widths: overlap iff every axis interval grown by the width meets"""
    k = 4.0
    lo1 = np.array([d.int(-8, 16) for _ in range(3)]) / k
    lo2 = np.array([d.int(-8, 8) for _ in range(3)]) / k
    e1 = np.array([d.int(0, 8) for _ in range(3)]) / k
    e2 = np.array([d.int(0, 8) for _ in range(3)]) / k
    bnd = d.pick([0, 0, 1, 2, 3, 4, 5, 8, 12]) / k
    a, b = AABB(lo1, lo1 + e1), AABB(lo2, lo2 + e2)
    saved = [x.copy() for x in (a.min_point, a.max_point, b.min_point, b.max_point)]
    gap = np.max(np.maximum(lo1 - (lo2 + e2), lo2 - (lo1 + e1)))
    want = gap <= 2 * bnd                      # exact: multiples of 1/4; touching counts as overlap
    d.label("touch" if gap == 2 * bnd else ("in" if want else "out"))
    ensure(bool(AABB.is_overlap(a, b, bnd)) == bool(want), "overlap", a=(lo1, lo1 + e1), b=(lo2, lo2 + e2), boundary=bnd)
    ensure(bool(AABB.is_overlap(b, a, bnd)) == bool(want), "overlap is not symmetric")
    if bnd == 0:
        ensure(bool(AABB.is_overlap(a, b)) == bool(want), "overlap without a boundary")
    for x, y in zip(saved, (a.min_point, a.max_point, b.min_point, b.max_point)):
        ensure(np.array_equal(x, y), "an overlap test changed a box")
    ensure(bool(AABB.is_overlap(a, a)), "a box overlaps itself")


@sub(quick=400)
def shared_point(d):
    """two point clouds that share a point have overlapping boxes; clouds separated along an axis do not"""
    P, Q = pts(d), pts(d)
    ax = d.int(0, 2)
    A = AABB.create_from_vertices(P)
    B = AABB.create_from_vertices(np.vstack([Q, P[d.int(0, len(P) - 1)]]))
    ensure(bool(AABB.is_overlap(A, B)), "boxes sharing a point do not overlap")
    gap = d(pos(1e-3, 3))
    Q[:, ax] += P[:, ax].max() - Q[:, ax].min() + gap
    C = AABB.create_from_vertices(Q)
    ensure(not AABB.is_overlap(A, C), "separated boxes overlap", gap=gap)
    ensure(not AABB.is_overlap(A, C, 0.49 * gap), "boxes further apart than twice the boundary overlap")
    ensure(bool(AABB.is_overlap(A, C, 0.51 * gap)) == bool(
        np.max(np.maximum(A.min_point - C.max_point, C.min_point - A.max_point)) <= 1.02 * gap), "boundary grows both boxes")


@sub(quick=200)
def copies(d):
    """a box does not alias the arrays it was built from"""
    lo, hi = d(vec(3, -3, 0)), d(vec(3, 0.25, 3))
    b = AABB(lo, hi)
    lo2, hi2 = lo.copy(), hi.copy()
    lo += 1.0
    hi += 1.0
    close(b.min_point, lo2, msg="lower corner changed with the caller's array")
    close(b.max_point, hi2, msg="upper corner changed with the caller's array")


if __name__ == "__main__":
    sys.exit(main("C15", ["touching boxes count as overlapping (closed intervals)"]))
