from pbt import *
import rainbow.geometry.grid3 as GRID


def make_grid(d, lo=2, hi=6):
    mn = d(vec(3, -5, 5))
    ext = np.array([d(pos(0.2, 6.0)) for _ in range(3)])
    I, J, K = d.int(lo, hi), d.int(lo, hi), d.int(lo, hi)
    if d.bool():
        d.label("anisotropic")
    else:
        I = J = K
    return GRID.Grid(mn, mn + ext, I, J, K), mn, ext, (I, J, K)


def trilinear(c):
    def f(p):
        x, y, z = [float(t) for t in p]
        return (c[0] + c[1] * x + c[2] * y + c[3] * z + c[4] * x * y + c[5] * x * z + c[6] * y * z + c[7] * x * y * z)

    def g(p):
        x, y, z = [float(t) for t in p]
        return np.array([c[1] + c[4] * y + c[5] * z + c[7] * y * z, c[2] + c[4] * x + c[6] * z + c[7] * x * z,
                         c[3] + c[5] * x + c[6] * y + c[7] * x * y])
    return f, g


def scalar(v):
    return float(np.asarray(v).ravel()[0])


@sub(quick=500)
def trilinear_field(d):
    """a trilinear field on a random grid: sampled value and gradient are exact inside and (by extrapolation) outside"""
    grid, mn, ext, n = make_grid(d)
    f, g = trilinear(d(vec(8, -2, 2)))
    GRID.eval_on_grid(grid, f)
    lo, hi = (0.0, 1.0) if d.bool() else (-0.5, 1.5)
    p = mn + np.array([d(st.floats(lo, hi)) for _ in range(3)]) * ext
    s = 1 + np.abs(p).max() ** 3
    close(scalar(GRID.get_value(grid, p)), f(p), atol=1e-9 * s * 100, rtol=1e-9, msg="sampled value", p=p)
    close(np.asarray(GRID.get_gradient(grid, p)).ravel(), g(p), atol=1e-8 * s * 100, rtol=1e-8, msg="sampled gradient", p=p)


@sub(quick=500)
def random_values(d):
    """random node values: reference trilinear interpolation per cell; gradient is the derivative of the sampled value"""
    grid, mn, ext, (I, J, K) = make_grid(d, 2, 4)
    vals = d(vec(I * J * K, -3, 3))
    grid.values = vals.reshape(-1, 1) if d.bool() else vals
    A = vals.reshape(K, J, I)                                 # node (i,j,k) stored at i + I (j + J k)
    h = ext / (np.array([I, J, K]) - 1)
    c = np.array([d.int(0, m - 2) for m in (I, J, K)])
    t = np.array([d(st.floats(0.02, 0.98)) for _ in range(3)])
    p = mn + (c + t) * h
    want, grad = 0.0, np.zeros(3)
    for a in range(2):
        for b in range(2):
            for e in range(2):
                v = A[c[2] + e, c[1] + b, c[0] + a]
                wx, wy, wz = (t[0] if a else 1 - t[0]), (t[1] if b else 1 - t[1]), (t[2] if e else 1 - t[2])
                want += wx * wy * wz * v
                grad += v * np.array([(1 if a else -1) * wy * wz, (1 if b else -1) * wx * wz, (1 if e else -1) * wx * wy]) / h
    close(scalar(GRID.get_value(grid, p)), want, atol=1e-8, msg="sampled value", p=p)
    close(np.asarray(GRID.get_gradient(grid, p)).ravel(), grad, atol=1e-7, rtol=1e-7, msg="sampled gradient", p=p)


@sub(quick=100)
def large_grids(d):
    """grids of up to 300 nodes per axis: linear indices run through the nodes, x first; non-trivial if all resolutions differ"""
    mn, ext = d(vec(3, -5, 5)), np.array([d(pos(0.2, 6.0)) for _ in range(3)])
    n = [d.pick([2, 3, 17, 64, 65, 100, 128, 129, 255, 300]) for _ in range(3)]
    d.nontrivial(len(set(n)) == 3)
    a, b = mn.copy(), mn + ext
    grid = GRID.Grid(a, b, *n)
    a += 1.0
    b += 1.0
    close(grid.min_coord, mn, atol=0, msg="the grid moves with the caller's array")
    close(grid.max_coord, mn + ext, atol=0, msg="the grid moves with the caller's array")
    want = np.array([d.int(0, m - 1) for m in n])
    ensure(grid.get_linear_index(*want) == want[0] + n[0] * (want[1] + n[1] * want[2]), "linear index", node=want, n=n)
    ensure(grid.is_valid_node_index(*want) and not grid.is_valid_node_index(*(want + np.array(n))), "valid nodes", node=want, n=n)
    t = np.array([d(st.floats(0.0, 1.0)) for _ in range(3)])
    cell = np.array(grid.get_enclosing_cell_idx(mn + t * ext))
    u = t * (np.array(n) - 1)
    ensure(np.all(cell <= u + 1e-6) and np.all(u <= cell + 1 + 1e-6) and np.all(cell <= np.array(n) - 2), "enclosing cell", cell=cell, at=u)


@sub(quick=200)
def exactly_on_the_margin(d):
    """boxes, widths and points that are multiples of 1/8: a point exactly at the boundary distance is inside, just beyond it is not; non-trivial if on the margin"""
    mn = np.array([d.int(-40, 40) for _ in range(3)]) / 8.0
    ext = np.array([d.int(8, 80) for _ in range(3)]) / 8.0
    grid = GRID.Grid(mn, mn + ext, 2, 3, 4)
    b = d.int(0, 40) / 8.0
    p = np.array([(d.pick([mn[a] + b, mn[a] + ext[a] - b, mn[a] + d.int(0, int(8 * ext[a])) / 8.0, mn[a] + ext[a] / 2, mn[a] + ext[a] / 2])) for a in range(3)])
    m = np.minimum(p - mn - b, mn + ext - b - p).min()
    d.nontrivial(m == 0)
    ensure(bool(GRID.is_inside(grid, p, b)) == bool(m >= 0), "inside test", p=p, b=b, mn=mn, mx=mn + ext)


@sub(quick=400)
def layout(d):
    """node coordinates, linear index (a bijection), node array, enclosing cell (clamped) and node evaluation"""
    grid, mn, ext, (I, J, K) = make_grid(d, 2, 5)
    seen = {}
    nodes = GRID.get_nodes_array(grid)
    ensure(nodes.shape == (I * J * K, 3), "node array shape", shape=nodes.shape)
    h = ext / (np.array([I, J, K]) - 1)
    close(grid.spacing, h, msg="spacing")
    for k in range(K):
        for j in range(J):
            for i in range(I):
                idx = grid.get_linear_index(i, j, k)
                ensure(idx not in seen and 0 <= idx < I * J * K, "linear index is not a bijection")
                seen[idx] = (i, j, k)
                x = mn + h * np.array([i, j, k])
                close(nodes[idx], x, atol=1e-9, msg="node array")
                close(grid.get_node_coord(i, j, k), x, atol=1e-9, msg="node coordinate")
    GRID.eval_on_grid(grid, lambda q: q[0] + 10 * q[1] + 100 * q[2])
    i, j, k = d.int(0, I - 1), d.int(0, J - 1), d.int(0, K - 1)
    x = mn + h * np.array([i, j, k])
    close(scalar(grid.get_node_value(i, j, k)), x[0] + 10 * x[1] + 100 * x[2], atol=1e-8, msg="node value")
    close(scalar(GRID.get_value(grid, x)), x[0] + 10 * x[1] + 100 * x[2], atol=1e-6, msg="value at a node")
    for a, b, c in ((i, j, k), (i - I, j, k), (i, j - J, k), (i, j, k - K), (i + I, j, k), (i, j + J, k), (i, j, k + K)):
        want = 0 <= a < I and 0 <= b < J and 0 <= c < K
        ensure(bool(grid.is_valid_node_index(a, b, c)) == want, "node index validity", idx=(a, b, c))
    t = np.array([d(st.floats(-2.0, 3.0)) for _ in range(3)])
    p = mn + t * ext
    cell = np.array(grid.get_enclosing_cell_idx(p))
    n = np.array([I, J, K])
    ensure(np.all(cell >= 0) and np.all(cell <= n - 2), "enclosing cell outside the grid", cell=cell)
    u = (p - mn) / h
    for a in range(3):
        if 0 <= u[a] <= n[a] - 1:
            ensure(cell[a] - 1e-9 <= u[a] <= cell[a] + 1 + 1e-9, "cell does not enclose the point", p=p, cell=cell)
        elif u[a] < 0:
            ensure(cell[a] == 0, "not the closest cell", p=p, cell=cell)
        else:
            ensure(cell[a] == n[a] - 2, "not the closest cell", p=p, cell=cell)


@sub(quick=500)
def inside(d):
    """points and boundary widths: inside iff every coordinate keeps the boundary distance; negative widths refused"""
    grid, mn, ext, _ = make_grid(d)
    b = d(st.one_of(st.sampled_from([0.0, 0.5]), st.floats(0, 0.3).map(lambda x: x * ext.min())))
    r = d.pick([0.0, 0.0, 0.3])
    p = mn + np.array([d(st.floats(0.1 - r, 0.9 + r)) for _ in range(3)]) * ext
    margin = np.minimum(p - (mn + b), (mn + ext - b) - p).min()
    if abs(margin) > 1e-9:
        got = GRID.is_inside(grid, p, b)
        d.label("in" if margin > 0 else "out")
        ensure(bool(got) == (margin > 0), "inside test", p=p, b=b, mn=mn, mx=mn + ext)
        if b == 0.5:
            ensure(bool(GRID.is_inside(grid, p)) == (margin > 0), "default boundary width is 0.5")
    try:
        GRID.is_inside(grid, p, -d(pos(1e-3, 1)))
    except ValueError:
        pass
    else:
        fail("negative boundary width accepted")


@sub(quick=200)
def refused(d):
    """grids with an inverted box or less than two nodes along an axis are refused"""
    mn = d(vec(3, -5, 5))
    mx = mn + np.array([d(pos(0.1, 3)) for _ in range(3)])
    n = [d.int(2, 5) for _ in range(3)]
    a = d.int(0, 2)
    if d.bool():
        n[a] = d.int(-2, 1)
    else:
        mn[a], mx[a] = mx[a], mn[a]
    try:
        GRID.Grid(mn, mx, *n)
    except ValueError:
        return
    fail("invalid grid accepted")


if __name__ == "__main__":
    sys.exit(main("C11", ["grids up to 6 nodes per axis with positive extent along every axis"]))
