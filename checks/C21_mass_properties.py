"""C21: mass, centre of mass, inertia tensor and body frame of every closed mesh are those of the solid it encloses."""
from pbt import *
import meshgen as mg
import rainbow.math.quaternion as Q
import rainbow.simulators.prox_rigid_bodies.mass as MASS
import rainbow.simulators.prox_rigid_bodies.api as API
import rainbow.geometry.surface_mesh as MESH


def solid(d):
    """closed meshes, among them highly symmetric solids (repeated principal moments) in generic poses"""
    if d.bool():
        V, F = mg.closed_mesh(d, place=True)
        d.label("generic")
    else:
        kind = d.pick(["cube", "square_prism", "prism", "octahedron", "tetra", "sphere"])
        d.label(kind)
        s = d(pos(0.3, 3))
        if kind == "cube":
            V, F = mg.box(s, s, s)
        elif kind == "square_prism":
            V, F = mg.box(s, s, s * d(pos(0.3, 3)))
        elif kind == "prism":
            n = d.size(3, 8, 100)
            h = d(pos(0.3, 3))
            P = [[s * np.cos(2 * np.pi * i / n), s * np.sin(2 * np.pi * i / n), z] for i in range(n) for z in (-h, h)]
            V, F = mg.hull(np.array(P))
        elif kind == "octahedron":
            V, F = mg.hull(np.array([[s, 0, 0], [-s, 0, 0], [0, s, 0], [0, -s, 0], [0, 0, s], [0, 0, -s]]))
        elif kind == "tetra":
            V, F = mg.hull(s * np.array([[1., 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1]]))
        else:
            V, F = MESH.create_sphere(s, d.size(4, 8, 30), d.size(3, 6, 30))
            if mg.volume(V, F) < 0:
                F = F[:, ::-1].copy()
        R = [np.eye(3), ref_matrix(d(quat_generic())), ref_rodrigues(10.0 ** d(num(-7, -1)), d(unit()))][d.pick([0, 1, 1, 2])]
        V = V @ R.T + (np.array(d(vec(3, -5, 5))) if d.bool() else 0.0)
    return np.ascontiguousarray(V), np.ascontiguousarray(F)


def inertia_of(p):
    return np.array([[p.Ixx, p.Ixy, p.Ixz], [p.Ixy, p.Iyy, p.Iyz], [p.Ixz, p.Iyz, p.Izz]])


@sub(quick=250)
def mesh_integrals(d):
    """mass, centre and inertia tensor about the origin of closed meshes against a tetrahedral decomposition; non-trivial if the centre is not the origin"""
    V, F = solid(d)
    if d.int(0, 2) == 0:                           # centred, then moved by a little
        V = V - mg.moments(V, F)[1] + 10.0 ** d(num(-4, -1)) * d(vec(3, -1, 1))
    rho = 10.0 ** d(num(-4, 8))
    p = MASS.compute_mass_properties(V, F, rho)
    vol, com, S = mg.moments(V, F)
    d.nontrivial(np.linalg.norm(com) > 1e-3)
    scale = float(np.trace(S)) * rho
    close(p.mass, rho * vol, rtol=1e-8, atol=0, msg="mass")
    close([p.x, p.y, p.z], com, atol=1e-7 * (1 + np.abs(V).max()), rtol=0, msg="centre of mass")
    close(inertia_of(p), rho * mg.inertia_from_second_moment(S), atol=1e-7 * scale, rtol=0, msg="inertia tensor about the origin")


@sub(quick=250)
def body_frame(d):
    """body-to-model transform: principal, sorted, right-handed and reconstructs the model-frame tensor; non-trivial if the solid is rotated or off-centre"""
    V, F = solid(d)
    rho = 10.0 ** d(num(-4, 8))
    r, q, m, I = MASS.xform_model_2_body_space(MASS.compute_mass_properties(V, F, rho))
    vol, com, S = mg.moments(V, F)
    Ic = rho * mg.inertia_from_second_moment(S - vol * np.outer(com, com))
    sc = float(np.trace(Ic))
    big = float(rho * np.trace(S))
    tol = 1e-8 * big + 1e-7 * sc
    close(m, rho * vol, rtol=1e-8, atol=0, msg="mass")
    close(r, com, atol=1e-7 * (1 + np.abs(V).max()), rtol=0, msg="body frame origin is not the centre of mass")
    close(np.linalg.norm(q), 1.0, atol=1e-9, msg="body frame orientation is not a unit quaternion")
    ensure(I[0] >= I[1] - tol and I[1] >= I[2] - tol, "principal moments are not in descending order", I=I)
    ensure(I[2] > 0 and I[0] <= I[1] + I[2] + tol, "principal moments violate the triangle inequality", I=I)
    R = ref_matrix(q)
    close(R @ np.diag(I) @ R.T, Ic, atol=tol, rtol=0, msg="body frame is not a principal frame of the solid")


@sub(quick=150)
def length_scale(d):
    """scaling a solid by s multiplies mass by s^3, moments by s^5, the centre by s, and keeps the axes valid; non-trivial if s<0.05"""
    V, F = mg.closed_mesh(d, place=True, kinds=("box", "hull", "lshape", "tet"))
    s = 10.0 ** d(num(-4.0, 3.0))
    d.nontrivial(s < 0.05)
    Vs = V * s
    r, q, m, I = MASS.xform_model_2_body_space(MASS.compute_mass_properties(Vs, F, 1.0))
    vol, com, S = mg.moments(V, F)
    Ic = mg.inertia_from_second_moment(S - vol * np.outer(com, com))
    close(m, vol * s**3, rtol=1e-7, atol=0, msg="mass of a scaled solid")
    close(np.asarray(r) / s, com, rtol=0, atol=1e-6 * (1 + np.abs(V).max()), msg="centre of a scaled solid")
    close(np.sort(I)[::-1] / s**5, np.sort(np.linalg.eigvalsh(Ic))[::-1], rtol=1e-6, atol=1e-7 * np.trace(S), msg="principal moments of a scaled solid")


@sub(quick=60)
def inside_out_refused(d):
    """inside-out meshes do not enclose a positive volume and are refused"""
    V, F = mg.closed_mesh(d, place=True)
    try:
        p = MASS.compute_mass_properties(V, np.ascontiguousarray(F[:, ::-1]), d(pos(0.1, 10)))
    except RuntimeError:
        return
    fail(f"inside-out mesh was given mass {p.mass}")


@sub(quick=300)
def rotated_inertia(d):
    """update_inertia_tensor against R diag R^T; non-trivial unless all moments are equal"""
    R = ref_matrix(d(quat()))
    B = np.array([d(pos(1e-3, 1e3)) for _ in range(3)])
    if d.bool():                                   # small bodies, and moments that nearly agree
        B = (1 + 10.0 ** d(num(-6, 0)) * d(vec(3, -0.5, 0.5))) * 10.0 ** d(num(-10, 6))
    d.nontrivial(np.ptp(B) > 1e-6 * B.max())
    close(MASS.update_inertia_tensor(R, B), R @ np.diag(B) @ R.T, atol=1e-10 * B.max(), rtol=0, msg="rotated inertia tensor")


@sub(quick=250)
def shape_body_frame(d):
    """create_shape moves the mesh into its principal frame and remembers the way back; set_mass_properties scales it"""
    V, F = solid(d)
    if d.int(0, 2) == 0:                           # a box that is nearly aligned with its axes
        a = [d(pos(0.3, 3)), d(pos(0.3, 3)), d(pos(0.3, 3))]
        V, F = mg.box(*(sorted(a) if d.int(0, 2) else a))
        V = V @ ref_rodrigues(10.0 ** d(num(-5, -1)), d(unit())).T + d(vec(3, -2, 2))
    eng = API.create_engine()
    eng.params.resolution = 6
    mesh = API.create_mesh(V, F)
    T0 = np.array(mesh.T)
    move = d.int(0, 4) > 0
    V0 = np.array(mesh.V)
    API.create_shape(eng, "s", mesh, move)
    sh = eng.shapes["s"]
    vol, com, S = mg.moments(V, F)
    size = 1 + np.abs(V).max()
    ensure(np.array_equal(np.asarray(sh.mesh.T), T0), "connectivity changed")
    Rq = ref_matrix(sh.q)
    if move:
        close(np.asarray(sh.mesh.V) @ Rq.T + np.asarray(sh.r), V0, atol=1e-7 * size, rtol=0, msg="body-to-model transform does not recover the model mesh")
    else:
        close(sh.mesh.V, V0, atol=0, rtol=0, msg="mesh that is already in the body frame was moved")
    close(sh.r, com, atol=1e-7 * size, rtol=0, msg="shape origin")
    if move:
        v2, c2, S2 = mg.moments(np.asarray(sh.mesh.V), np.asarray(sh.mesh.T))
        tol = 1e-7 * np.trace(S)
        close(v2, sh.mass, rtol=1e-7, atol=0, msg="mass of the body frame mesh")
        close(c2, np.zeros(3), atol=1e-6 * size, rtol=0, msg="body frame mesh is not centred")
        close(mg.inertia_from_second_moment(S2), np.diag(sh.inertia), atol=tol, rtol=0, msg="body frame inertia")
    API.create_rigid_body(eng, "b")
    API.connect_shape(eng, "b", "s")
    rho = d(pos(0.1, 1000))
    API.set_mass_properties(eng, "b", rho)
    b = eng.bodies["b"]
    close(b.mass, rho * vol, rtol=1e-7, atol=0, msg="body mass")
    close(b.inertia, rho * np.asarray(sh.inertia), rtol=1e-9, atol=0, msg="body inertia")
    # the SDF lives in the same frame as the mesh
    c = np.asarray(sh.mesh.V).min(axis=0), np.asarray(sh.mesh.V).max(axis=0)
    lo, hi = np.asarray(sh.grid.min_coord), np.asarray(sh.grid.max_coord)
    ensure(np.all(lo <= c[0] - 2 * eng.params.envelope + 1e-9) and np.all(hi >= c[1] + 2 * eng.params.envelope - 1e-9),
           "signed distance grid does not cover the shape and its envelope", lo=lo, hi=hi, vmin=c[0], vmax=c[1])
    room = 0.5 * (c[1] - c[0]).max() + 4 * eng.params.envelope
    ensure(np.all(lo >= c[0] - room) and np.all(hi <= c[1] + room), "the nodes of the signed distance grid are wasted on empty space", lo=lo, hi=hi, vmin=c[0], vmax=c[1])


if __name__ == "__main__":
    sys.exit(main("C21", ["Meshes have no sliver faces; solids have size 1e-4..1e3 and are at most a few diameters from the origin."]))
