from pbt import *
import meshgen as mg
import rainbow.geometry.surface_mesh as MESH
import rainbow.geometry.volume_mesh as VM


def mesh(d):
    if d.int(0, 3) == 0:
        d.label("volume-mesh")
        V, T = VM.create_beam(d.size(2, 4, 12), d.int(2, 3), d.size(2, 3, 6), d(pos(0.5, 3)), d(pos(0.5, 3)), d(pos(0.5, 3)))
        V = V @ ref_matrix(d(quat())).T + d(vec(3))
        return V, T
    V, F = mg.closed_mesh(d, place=d.bool())
    if d.int(0, 2) == 0:
        d.label("ties")
        V = np.round(V, 1)
    return V, F


@sub(quick=400)
def copies(d):
    """a mesh object owns its arrays: transforming it leaves the caller's arrays alone"""
    V, T = mesh(d)
    V0, T0 = V.copy(), T.copy()
    m = MESH.Mesh(V, T)
    MESH.translate(m, d(vec(3)))
    MESH.scale(m, d(pos()), d(pos()), d(pos()))
    MESH.rotate(m, d(quat()))
    MESH.axis_sort(m, d(unit()))
    MESH.scale_to_unit(m)
    ensure(np.array_equal(V, V0) and np.array_equal(T, T0), "transforming a mesh changed the arrays it was made from")


@sub(quick=600)
def transforms(d):
    """sequences of translate/rotate/scale equal the corresponding affine map of every vertex; connectivity is kept"""
    V, T = mesh(d)
    m = MESH.Mesh(V, T)
    A, b = np.eye(3), np.zeros(3)
    for _ in range(d.int(1, 5)):
        op = d.pick(["translate", "rotate", "scale"])
        d.label(op)
        if op == "translate":
            r = d(vec(3))
            m2 = MESH.translate(m, r)
            b = b + r
        elif op == "rotate":
            q = d(quat())
            m2 = MESH.rotate(m, q)
            A, b = ref_matrix(q) @ A, ref_matrix(q) @ b
        else:
            s = np.array([d(pos(0.2, 3)) for _ in range(3)])
            m2 = MESH.scale(m, *s)
            A, b = np.diag(s) @ A, s * b
        ensure(m2 is m, f"{op} works in place and returns the mesh")
    close(m.V, V @ A.T + b, atol=1e-8, rtol=1e-8, msg="vertices after the transforms")
    ensure(np.array_equal(m.T, T), "connectivity changed")
    lo, hi = MESH.aabb(m)
    close(lo, m.V.min(axis=0), msg="lower corner")
    close(hi, m.V.max(axis=0), msg="upper corner")


@sub(quick=400)
def scale_to_unit(d):
    """any mesh: afterwards the largest extent is one, about the same centre, with the same proportions"""
    V, T = mesh(d)
    u = d.pick([1e-6, 0.01, 1.0, 100.0, 1e6])
    V = u * (V + d(vec(3)))
    m = MESH.Mesh(V, T)
    c = 0.5 * (V.min(axis=0) + V.max(axis=0))
    s = 1.0 / (V.max(axis=0) - V.min(axis=0)).max()
    MESH.scale_to_unit(m)
    close(m.V, c + s * (V - c), atol=1e-8 * max(1.0, u), rtol=1e-8, msg="vertices")
    close((m.V.max(axis=0) - m.V.min(axis=0)).max(), 1.0, atol=1e-8 * max(1.0, u), msg="largest extent")


@sub(quick=500)
def axis_sort(d):
    """any mesh and axis (any length): vertices ascend along the axis, the set of elements in space is unchanged, elements ascend"""
    V, T = mesh(d)
    axis = d(unit()) * d(pos(0.1, 10))
    m = MESH.Mesh(V, T)
    MESH.axis_sort(m, axis)
    ensure(m.V.shape == V.shape and m.T.shape == T.shape, "shape changed")
    h = m.V @ (axis / np.linalg.norm(axis))
    ensure(np.all(np.diff(h) >= -1e-9), "vertices are not sorted along the axis")
    ensure(sorted(map(tuple, m.V)) == sorted(map(tuple, V)), "the set of vertices changed")
    a = sorted(tuple(map(tuple, V[t])) for t in T)
    b = sorted(tuple(map(tuple, m.V[t])) for t in m.T)
    ensure(a == b, "elements changed (vertices of an element, or their order)")
    used = {tuple(V[i]) for i in np.unique(T)}
    ensure(used == {tuple(m.V[i]) for i in np.unique(m.T)}, "elements refer to other vertices")
    mean = m.T.mean(axis=1)
    ensure(np.all(np.diff(mean) >= -1e-9), "elements are not sorted")


if __name__ == "__main__":
    sys.exit(main("C18", ["floating-point vertex arrays"]))
