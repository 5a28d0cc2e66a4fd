"""Hand-made contact problems of rigid bodies, and an independent test of Coulomb's law."""
from pbt import np, num, pos, unit, vec, quat
import rainbow.simulators.prox_rigid_bodies.api as API
import rainbow.simulators.prox_rigid_bodies.types as RT


def inertia(d):
    a, b, c = d(pos(0.1, 2)), d(pos(0.1, 2)), d(pos(0.1, 2))
    return np.array([b + c, a + c, a + b])


def bodies_with_contacts(d, nmax=4, kmax=4, kmin=1, fixed=True, still=False):
    """bodies without geometry and hand-made contact points between them"""
    eng = API.create_engine()
    n = d.int(2, nmax)
    mats = ["default", "m1", "m2"]
    API.create_surfaces_interaction(eng, "m1", "m2", d(pos(0.05, 1)), np.array([d(pos(0.1, 1)), 0.3, 0.3]))
    API.create_surfaces_interaction(eng, "m2", "default", d(pos(0.05, 1)), np.array([d(num(0, 1)), 0.3, 0.3]))
    API.create_surfaces_interaction(eng, "m1", "m1", d(pos(0.05, 1)), np.array([d(num(0, 1)), 0.3, 0.3]))
    API.create_gravity_force(eng, "g", 9.8, d(unit()))
    for i in range(n):
        nm = f"b{i}"
        API.create_rigid_body(eng, nm)
        b = eng.bodies[nm]
        b.q, b.r = d(quat()), d(vec(3, -3, 3))
        b.mass, b.inertia = d(pos(0.2, 5)), inertia(d)
        if not still:
            b.v, b.w = d(vec(3, -2, 2)), d(vec(3, -2, 2))
        API.set_body_material(eng, nm, d.pick(mats))
        if fixed and d.int(0, 3) == 0:
            b.is_fixed = True
            b.v, b.w = np.zeros(3), np.zeros(3)
        if d.bool():
            API.connect_force(eng, nm, "g")
    bs = list(eng.bodies.values())
    cps = []
    for _ in range(d.int(kmin, kmax)):
        i = d.int(0, n - 1)
        j = (i + d.int(1, n - 1)) % n
        p = (bs[i].r + bs[j].r) / 2 + d(vec(3, -1, 1))
        cps.append(RT.ContactPoint(bs[i], bs[j], p, d(unit()), d(num(-0.05, 0.05))))
    eng.contact_points = cps
    return eng


def coulomb_error(A, b, mu, sol):
    """largest violation of Coulomb's law (with the ball friction cone incl. spin) of a solved problem, None if it holds"""
    x = np.array(sol)
    w = A @ x + b
    vs, xs = 1 + np.abs(b).max(), 1 + np.abs(x).max()
    for k in range(len(x) // 4):
        if np.abs(A[4 * k:4 * k + 4]).max() == 0:
            continue
        xn, xf, wn, wf = x[4 * k], x[4 * k + 1:4 * k + 4], w[4 * k], w[4 * k + 1:4 * k + 4]
        if wn < -1e-4 * vs:
            return "bodies still approach at the contact: %g" % wn
        if xn > 1e-3 * xs and wn > 1e-3 * vs:
            return "normal impulse %g although the bodies separate with %g" % (xn, wn)
        if mu[k] * xn - np.linalg.norm(xf) > 1e-3 * xs and np.abs(wf).max() > 1e-3 * vs:
            return "sticking contact slides with %s" % wf
        wt, xt = wf[:2], xf[:2]
        if np.linalg.norm(xt) > 1e-3 * xs and np.linalg.norm(wt) > 1e-2 * vs:
            cosang = wt @ xt / np.linalg.norm(wt) / np.linalg.norm(xt)
            if cosang > -0.999:
                return "friction %s does not oppose the sliding %s" % (xt, wt)
        if xf[2] * wf[2] > 1e-3 * xs * vs:
            return "spin friction accelerates the spin"
    return None
