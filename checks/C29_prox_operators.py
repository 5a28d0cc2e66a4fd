"""C29: the proximal operators are the closest-point projections onto the friction sets (ball, origin, ellipsoid)."""
from pbt import *
import types
import lazyphi
import rainbow.simulators.prox_rigid_bodies.prox_operators as RP
import rainbow.simulators.prox_rigid_bodies.types as RT
import rainbow.simulators.prox_soft_bodies.types as ST
import rainbow.simulators.proximal_contact.proximal_operators as PP


def point(d):
    """a point of any size, also axis-aligned and zero"""
    s = 10.0 ** d.int(-6, 6)
    return s * np.array([np.round(d(num(-1, 1)), 9) for _ in range(3)])


@sub(quick=1500)
def ball(d):
    """prox_sphere of both simulators against the projection onto the ball of radius mu x_n, its idempotence and non-expansiveness; non-trivial if the point is outside"""
    z, y = point(d), point(d)
    mu, xn = d.pick([0.0] + [1.0] * 5) * d(pos(1e-3, 2)), d.pick([0.0, -1.0] + [1.0] * 6) * d(pos(1e-3, 1)) * 10.0 ** d.int(-6, 6)
    r = mu * max(xn, 0.0)
    d.nontrivial(np.linalg.norm(z) > r > 0)
    for P in (RP.prox_sphere, PP.prox_sphere):
        p = np.array(P(*map(float, z), mu, xn))
        n = np.linalg.norm(z)
        want = z if n <= r else z * (r / n)
        close(p, want, atol=1e-12 * max(1, r), rtol=1e-9, msg="projection onto the friction ball")
        if xn <= 0:
            close(p, np.zeros(3), atol=0, msg="friction without normal force")
        ensure(np.linalg.norm(p) <= r * (1 + 1e-12), "friction exceeds mu times the normal force", r=r, norm=np.linalg.norm(p))
        close(P(*p, mu, xn), p, atol=0, rtol=1e-12, msg="projecting twice differs from projecting once")
        q = np.array(P(*map(float, y), mu, xn))
        ensure(np.linalg.norm(p - q) <= np.linalg.norm(z - y) * (1 + 1e-9) + 1e-300, "projection is expansive")
    close(PP.prox_origin(*map(float, z), mu, xn), np.zeros(3), atol=0, msg="projection onto the origin")


@sub(quick=300)
def ellipsoid(d):
    """prox_ellipsoid against the optimality conditions of the closest point; spheres as special case; non-trivial if the point is outside and the semi-axes differ"""
    eng = d.pick([RT, ST]).Engine() if d.bool() else types.SimpleNamespace(params=RT.Parameters())
    s = 10.0 ** d.int(0, 3)
    z = s * np.array([d(num(-4, 4)) for _ in range(3)])
    mu = np.array([d(pos(0.1, 1)) for _ in range(3)])
    kind = d.pick(["axes", "axes", "axes", "ball", "none"])
    if kind == "ball":
        mu[:] = mu[0]
    elif kind == "none":
        mu[:] = 0
    xn = s * d.pick([-1.0, 0.0, 1.0, 1.0]) * d(pos(0.1, 2)) if kind != "axes" else s * d(pos(0.1, 2))
    p = np.array(PP.prox_ellipsoid(eng, *map(float, z), *map(float, mu), float(xn)))
    ensure(p.shape == (3,) and np.isfinite(p).all(), "result is not a finite point", p=p)
    if xn <= 0 or kind == "none":
        return close(p, np.zeros(3), atol=0, msg="friction without normal force or friction coefficient")
    ax = mu * xn
    f = lambda x: np.sum((x / ax) ** 2)
    outside = f(z) > 1 + 1e-6
    d.nontrivial(outside and kind == "axes")
    ensure(f(p) <= 1 + 1e-4, "friction outside the ellipsoid", f=f(p))
    if not outside:
        if f(z) < 1 - 1e-6:
            close(p, z, atol=0, msg="a point inside the ellipsoid is moved")
        return
    ensure(f(p) >= 1 - 1e-4, "projection of an outside point is inside", f=f(p))
    n = p / ax ** 2                                                  # outward normal: z - p = t n with t >= 0
    t = (z - p) @ n / (n @ n)
    ensure(t >= 0, "projection lies on the far side")
    close(z - p, t * n, atol=1e-3 * np.linalg.norm(z), rtol=0, msg="point minus projection is not normal to the ellipsoid")


if __name__ == "__main__":
    sys.exit(main("C29", ["Ellipsoids have semi-axes with ratios up to 10; the accuracy of the bisection (1e-9, scaled) is granted."]))
