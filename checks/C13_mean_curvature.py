from pbt import *
import rainbow.geometry.grid3 as GRID
import rainbow.geometry.mean_curvature as MC


def flat(v):
    return np.asarray(v, dtype=float).ravel()


@sub(quick=200)
def quadratic_field(d):
    """quadratic fields on anisotropic grids (central differences are exact): curvature = div(grad/|grad|), clamped"""
    mn = d(vec(3, -3, 3))
    h = np.array([d(pos(0.1, 1.0)) for _ in range(3)])
    n = np.array([d.int(3, 6) for _ in range(3)])
    g0 = d(vec(3, -2, 2))
    A = d(vec(9, -1, 1)).reshape(3, 3)
    A = A + A.T
    c = mn + 0.5 * h * (n - 1)
    grid = GRID.Grid(mn, mn + h * (n - 1), *[int(x) for x in n])
    GRID.eval_on_grid(grid, lambda p: 1.0 + g0 @ (p - c) + 0.5 * (p - c) @ A @ (p - c))
    if d.bool():
        grid.values = grid.values.ravel()
    before = grid.values.copy()
    kappa = MC.create_from_sdf(grid)
    ensure(np.array_equal(before, grid.values), "the signed distance field was modified")
    ensure((kappa.I, kappa.J, kappa.K) == (grid.I, grid.J, grid.K), "curvature grid has another resolution")
    close(kappa.min_coord, grid.min_coord, msg="corner")
    close(kappa.max_coord, grid.max_coord, msg="corner")
    lim = 1 / h.min()
    hit = 0
    for k in range(n[2]):
        for j in range(n[1]):
            for i in range(n[0]):
                got = float(flat(kappa.get_node_value(i, j, k))[0])
                ensure(np.isfinite(got) and abs(got) <= lim * (1 + 1e-9), "curvature beyond what the grid can resolve", got=got, lim=lim)
                if min(i, j, k) == 0 or i == n[0] - 1 or j == n[1] - 1 or k == n[2] - 1:
                    continue
                x = mn + h * np.array([i, j, k])
                g = g0 + A @ (x - c)
                l = np.linalg.norm(g)
                if l < 0.52:
                    continue
                want = (np.trace(A) * (g @ g) - g @ A @ g) / l ** 3
                hit += 1
                if abs(want) > lim:
                    d.label("clamped")
                close(got, np.clip(want, -lim, lim), atol=1e-6, rtol=1e-6, msg="curvature", node=(i, j, k))
    d.nontrivial(hit > 0)


@sub(quick=60)
def sphere(d):
    """signed distance of a sphere: close to 2/r near the surface, and its sign flips with the sign of the field"""
    r = d(st.floats(1.0, 3.0))
    n = d.int(9, 13)
    c = d(vec(3, -2, 2))
    ext = r + 0.6
    grid = GRID.Grid(c - ext, c + ext, n, n, n)
    s = d.pick([1.0, -1.0])
    GRID.eval_on_grid(grid, lambda p: s * (np.linalg.norm(p - c) - r))
    kappa = MC.create_from_sdf(grid)
    h = 2 * ext / (n - 1)
    for k in range(1, n - 1):
        for j in range(1, n - 1):
            for i in range(1, n - 1):
                x = grid.get_node_coord(i, j, k)
                rr = np.linalg.norm(x - c)
                if rr < max(2.5 * h, 0.7 * r):
                    continue
                got = float(flat(kappa.get_node_value(i, j, k))[0])
                want = np.clip(s * 2.0 / rr, -1 / h, 1 / h)
                ensure(abs(got - want) <= 0.15 * abs(want), "curvature of a sphere", got=got, want=want, x=x, r=r)


if __name__ == "__main__":
    sys.exit(main("C13", ["curvature is the sum of the principal curvatures (divergence of the unit normal)",
                          "nodes on the outer layer and where the gradient is below 0.52 are only checked for range"]))
