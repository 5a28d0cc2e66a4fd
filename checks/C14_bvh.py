from pbt import *
import rainbow.geometry.kdop as KDOP
import rainbow.geometry.kdop_bvh as BVH

DIR = {3: np.eye(3), 4: np.array([[1, 1, 1], [1, 1, -1], [1, -1, 1], [1, -1, -1]], dtype=float)}


def soup(d, size, spread):
    """simplices (2..4 vertices each) sharing a vertex pool"""
    n = d.size(1, 14, 60)
    c = d(vec(3, -spread, spread))
    nv = d.int(size, max(size, n + 2))
    pts = [d(st.tuples(st.integers(-8, 8), st.integers(-8, 8), st.integers(-8, 8))) for _ in range(nv)]
    V = c + np.array(pts, dtype=float) * d.pick([0.25, 0.125, 0.0625])
    T = np.array([[d.int(0, nv - 1) for _ in range(size)] for _ in range(n)])
    return V, T


def intervals(V, T, K, env):
    P = (V[T] @ DIR[K].T)                     # (n, size, K)
    return P.min(axis=1) - env, P.max(axis=1) + env


def expected_pairs(VA, TA, VB, TB, K, env_a, env_b):
    la, ua = intervals(VA, TA, K, env_a)
    lb, ub = intervals(VB, TB, K, env_b)
    tol = 1e-9
    must, may = set(), set()
    for i in range(len(TA)):
        for j in range(len(TB)):
            gap = np.max(np.maximum(la[i] - ub[j], lb[j] - ua[i]))
            if gap < -tol:
                must.add((i, j))
            if gap <= tol:
                may.add((i, j))
    return must, may


def check_pairs(res, must, may, ctx):
    got = [tuple(int(x) for x in r) for r in res]
    ensure(len(got) == len(set(got)), "a pair is reported twice" + ctx, pairs=got)
    miss = must - set(got)
    ensure(not miss, "an overlapping pair is missing" + ctx, missing=sorted(miss)[:5], reported=len(got))
    extra = set(got) - may
    ensure(not extra, "a pair of leaves whose volumes do not overlap is reported" + ctx, extra=sorted(extra)[:5])


@sub(quick=500)
def traversal_complete(d):
    """two meshes, K=3/4, chunk sizes 1..15, envelope: traversal = all pairs whose leaf volumes overlap; before/after refit"""
    K = d.pick([3, 4])
    VA, TA = soup(d, d.pick([2, 3, 4]), 1.0)
    VB, TB = soup(d, d.pick([2, 3, 4]), 1.0)
    ea, eb = d.pick([0.0, 0.1, 0.4]), d.pick([0.0, 0.1, 0.4])
    NA, NB = d.size(1, 16, 100), d.size(1, 16, 100)
    A = BVH.make_bvh(VA, TA, K, NA, ea)
    B = BVH.make_bvh(VB, TB, K, NB, eb)
    must, may = expected_pairs(VA, TA, VB, TB, K, ea, eb)
    d.label("overlap" if must else "disjoint")
    if len(TA) > (NA + 1) // 2:
        d.label("several-chunks")
    check_pairs(BVH.traversal(A, B), must, may, "")
    check_pairs([(j, i) for i, j in BVH.traversal(B, A)], must, may, " (roles swapped)")
    for step in range(d.int(0, 2)):
        VA = VA + d(vec(3, -1, 1)) + np.array([d(vec(3, -0.3, 0.3)) for _ in range(len(VA))])
        BVH.refit_bvh(VA, TA, A, K, ea)
        if d.bool():
            VB = VB * d(pos(0.5, 1.5)) + d(vec(3, -0.5, 0.5))
            eb = d.pick([0.0, 0.2])
            BVH.refit_bvh(VB, TB, B, K, eb)
        must, may = expected_pairs(VA, TA, VB, TB, K, ea, eb)
        d.label("refit")
        check_pairs(BVH.traversal(A, B), must, may, " after refit")


@sub(quick=12)
def dense_overlap(d):
    """meshes of up to 60 and 45 elements around one place, in one subtree or a few: nearly all of the pairs overlap and all of them are reported"""
    K = d.pick([3, 4])
    rng = np.random.RandomState(d.int(0, 9999))
    mesh = []
    for n in (60 - d.int(0, 40), 45 - d.int(0, 40)):
        size = d.pick([3, 4])
        mesh.append((rng.uniform(-1, 1, (n * size, 3)) * d.pick([1.0, 1.0, 0.3]), np.arange(n * size).reshape(n, size)))
    (VA, TA), (VB, TB) = mesh
    e = d.pick([0.3, 0.5, 0.1])
    A = BVH.make_bvh(VA, TA, K, d.pick([2 * len(TA) - 1, 200, 31]), e)
    B = BVH.make_bvh(VB, TB, K, d.pick([2 * len(TB) - 1, 200, 31]), e)
    must, may = expected_pairs(VA, TA, VB, TB, K, e, e)
    d.nontrivial(len(must) > 400)
    check_pairs(BVH.traversal(A, B), must, may, " of many")
    check_pairs([(j, i) for i, j in BVH.traversal(B, A)], must, may, " of many (roles swapped)")


@sub(quick=300)
def partial_motion(d):
    """a few elements of a mesh with several chunks move far away to another mesh, refit: exactly the overlapping pairs; root covers all"""
    K = d.pick([3, 4])
    n, size = d.size(3, 14, 60), d.pick([2, 3, 4])
    V = np.array([d(vec(3, -1, 1)) for _ in range(n * size)])
    T = np.arange(n * size).reshape(n, size)
    env = d.pick([0.0, 0.0, 0.1])
    N = d.size(1, 8, 40)
    A = BVH.make_bvh(V, T, K, N, env)
    for step in range(d.int(1, 2)):
        a = d.int(0, n - 1)
        b = d.int(a, n - 1)
        shift = d(unit()) * d(pos(5, 50))
        V = V.copy()
        V[T[a:b + 1].ravel()] += shift
        BVH.refit_bvh(V, T, A, K, env)
        W = V[T[d.int(a, b)]] + d(vec(3, -0.5, 0.5))
        B = BVH.make_bvh(W, np.arange(size)[None], K, 3, 0.0)
        must, may = expected_pairs(V, T, W, np.arange(size)[None], K, env, 0.0)
        d.label("hit" if must else "miss")
        check_pairs(BVH.traversal(A, B), must, may, " after a part moved")
        check_pairs([(j, i) for i, j in BVH.traversal(B, A)], must, may, " after a part moved (roles swapped)")
        lo, up = intervals(V, T, K, env)
        close([s.lower for s in A.root.slabs], lo.min(axis=0), msg="lower bounds of the refitted root volume")
        close([s.upper for s in A.root.slabs], up.max(axis=0), msg="upper bounds of the refitted root volume")


@sub(quick=150)
def self_traversal(d):
    """a tree against itself reports every element with itself and is symmetric"""
    K = d.pick([3, 4])
    V, T = soup(d, 4, 0.5)
    A = BVH.make_bvh(V, T, K, 2 * d.int(1, 8) - 1, d.pick([0.0, 0.1]))
    got = {tuple(int(x) for x in r) for r in BVH.traversal(A, A)}
    for i in range(len(T)):
        ensure((i, i) in got, "an element does not meet itself", i=i)
    for i, j in got:
        ensure((j, i) in got, "pairs of a tree with itself are not symmetric", pair=(i, j))


@sub(quick=500)
def kdop_operations(d):
    """vertex sets: kdop = tight slabs + envelope; overlap and union vs. interval arithmetic; mixed K refused"""
    K = d.pick([3, 4])
    VA = np.array([d(vec(3, -3, 3)) for _ in range(d.int(1, 6))])
    VB = np.array([d(vec(3, -3, 3)) for _ in range(d.int(1, 6))]) + d(vec(3, -4, 4))
    e = d(st.one_of(st.just(0.0), st.floats(0, 0.5)))
    A, B = KDOP.make(K, VA, e), KDOP.make(K, VB)
    ia, ib = intervals(VA, np.arange(len(VA))[None], K, e), intervals(VB, np.arange(len(VB))[None], K, 0)
    for k in range(K):
        close([A.slabs[k].lower, A.slabs[k].upper], [ia[0][0][k], ia[1][0][k]], msg="slab")
    gap = np.max(np.maximum(ia[0] - ib[1], ib[0] - ia[1]))
    if abs(gap) > 1e-9:
        d.label("overlap" if gap < 0 else "disjoint")
        ensure(bool(KDOP.overlap(A, B)) == (gap < 0), "overlap of two kdops", gap=gap)
        ensure(bool(KDOP.overlap(B, A)) == (gap < 0), "overlap of two kdops (swapped)", gap=gap)
    U = KDOP.union(A, B)
    for k in range(K):
        close([U.slabs[k].lower, U.slabs[k].upper], [min(ia[0][0][k], ib[0][0][k]), max(ia[1][0][k], ib[1][0][k])], msg="union slab")
    other = KDOP.make(7 - K, VB)
    for f in (KDOP.overlap, KDOP.union):
        try:
            f(A, other)
        except RuntimeError:
            continue
        fail("kdops of different K accepted")


if __name__ == "__main__":
    sys.exit(main("C14", ["K in {3,4} (the direction sets that exist)", "touching volumes (gap below 1e-9) may go either way"]))
