from pbt import *
import meshgen as mg
import rainbow.geometry.grid3 as GRID


def flat(v):
    return np.asarray(v, dtype=float).ravel()


@sub(quick=250)
def node_values(d):
    """closed meshes (convex, L-shape, torus) and boundary width: every stored node value is the signed distance"""
    V, F = mg.closed_mesh(d)
    I, J, K = (d.size(2, 9, 24) for _ in range(3))
    b = d(st.one_of(st.sampled_from([0.0, 0.5]), st.floats(0, 1.5)))
    grid = GRID.create_signed_distance(V, F, I, J, K, b)
    ensure((grid.I, grid.J, grid.K) == (I, J, K), "grid resolution")
    close(grid.min_coord, V.min(axis=0) - b, msg="lower corner of the grid")
    close(grid.max_coord, V.max(axis=0) + b, msg="upper corner of the grid")
    vals = flat(grid.values)
    ensure(vals.size == I * J * K, "one value per node")
    h = (grid.max_coord - grid.min_coord) / (np.array([I, J, K]) - 1)
    neg = 0
    for _ in range(12):
        i, j, k = d.int(0, I - 1), d.int(0, J - 1), d.int(0, K - 1)
        x = grid.min_coord + h * np.array([i, j, k])
        want = mg.signed_distance(x, V, F)
        if abs(want) < 1e-7:
            continue
        got = float(flat(grid.get_node_value(i, j, k))[0])
        close(got, want, atol=1e-6, msg="signed distance at a node", node=(i, j, k), x=x)
        close(float(flat(GRID.get_value(grid, x))[0]), got, atol=1e-6, msg="sampling a node returns the node value")
        neg += want < 0
    d.label("has-inside-node" if neg else "outside-only")


@sub(quick=200)
def between_nodes(d):
    """points anywhere inside the grid: the sampled distance is within one cell diagonal of the true signed distance"""
    V, F = mg.closed_mesh(d)
    n = d.int(5, 16)
    b = d(st.floats(0.1, 0.6))
    grid = GRID.create_signed_distance(V, F, n, n, n, b)
    diag = np.linalg.norm((grid.max_coord - grid.min_coord) / (n - 1))
    for _ in range(10):
        t = np.array([d(st.floats(0.0, 1.0)) for _ in range(3)])
        p = grid.min_coord + t * (grid.max_coord - grid.min_coord)
        want = mg.signed_distance(p, V, F)
        got = float(flat(GRID.get_value(grid, p))[0])
        ensure(abs(got - want) <= diag + 1e-9, "sampled distance off by more than a cell diagonal", p=p, got=got, want=want, diag=diag)
        g = flat(GRID.get_gradient(grid, p))
        ensure(np.all(np.abs(g) <= 1 + 1e-7), "a sampled distance grows faster than distance along an axis", g=g)
        if abs(want) > diag:
            ensure((got < 0) == (want < 0), "sign of the sampled distance", p=p, got=got, want=want)


@sub(quick=30)
def refused(d):
    """negative boundary widths are refused"""
    V, F = mg.closed_mesh(d)
    try:
        GRID.create_signed_distance(V, F, 3, 3, 3, -d(pos(1e-3, 1)))
    except ValueError:
        return
    fail("negative boundary width accepted")


if __name__ == "__main__":
    sys.exit(main("C12", ["closed, outward-oriented meshes", "igl.signed_distance is part of what is tested"]))
