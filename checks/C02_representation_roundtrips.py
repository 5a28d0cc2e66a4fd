"""C02 - converting a rotation between representations and back gives the same rotation."""
from pbt import *
import rainbow.math.quaternion as Q
import rainbow.math.euler as EULER
import rainbow.math.expmap as EXP
import rainbow.math.angle as ANGLE


def near_special():
    """Rotations by exactly or nearly 0, 90, 180, 270 degrees about special or generic axes."""
    return st.tuples(angle(), unit()).map(
        lambda t: np.concatenate(([np.cos(t[0] / 2)], np.sin(t[0] / 2) * t[1])))


def rotation():
    return st.one_of(quat(), near_special())


def same_rotation(a, b, tol, msg, **kw):
    close(ref_matrix(a), ref_matrix(b), atol=tol, rtol=0, msg=msg, **kw)


@sub(quick=1200)
def matrix_roundtrip(d):
    """rotations incl. all trace/diagonal branches: quaternion -> matrix -> quaternion"""
    q = d(rotation())
    R = ref_matrix(q)
    d.label("trace<0" if np.trace(R) < 0 else "trace>=0")
    d.label("largest diag %d" % int(np.argmax(np.diag(R))))
    p = Q.from_matrix(R)
    close(np.linalg.norm(p), 1.0, atol=1e-7, msg="quaternion from matrix must be unit")
    same_rotation(p, q, 1e-7, "from_matrix", q=q)
    same_rotation(Q.from_matrix(Q.to_matrix(q)), q, 1e-7, "from_matrix(to_matrix(q))", q=q)


@sub(quick=800)
def angle_axis_roundtrip(d):
    """rotations: quaternion -> (angle, axis) -> quaternion; angle about a known axis"""
    q = d(rotation())
    theta, n = Q.to_angle_axis(q)
    sv = np.linalg.norm(q[1:])
    ensure(0.0 <= theta <= 2 * np.pi + 1e-12, "angle range", theta=theta)
    if sv > 0:
        close(np.linalg.norm(n), 1.0, msg="axis is unit")
        close(Q.Ru(theta, n), q, atol=1e-9, msg="Ru(to_angle_axis(q)) = q", q=q)
    else:
        close(n, np.zeros(3), msg="no axis")
    d.nontrivial(sv > 1e-8)
    th = d(angle())
    u = d(unit())
    p = np.concatenate(([np.cos(th / 2)], np.sin(th / 2) * u))
    a = Q.to_angle(p, u)
    ensure(-np.pi - 1e-9 <= a <= np.pi + 1e-9, "to_angle range", a=a)
    close(ref_rodrigues(a, u), ref_rodrigues(th, u), atol=1e-9, msg="to_angle is the signed angle about the axis")
    close(ref_rodrigues(Q.to_angle(-p, u), u), ref_rodrigues(th, u), atol=1e-9, msg="to_angle of -q")


@sub(quick=800)
def euler_roundtrip(d):
    """rotations incl. gimbal lock: matrix/quaternion -> XYZ Euler angles -> Rz Ry Rx"""
    mode = d.int(0, 2)
    if mode == 0:
        q = d(rotation())
        R = ref_matrix(q)
    else:
        a, g = d(angle()), d(angle())
        b = d(st.sampled_from([np.pi / 2, -np.pi / 2, 0.0, np.pi / 2 - 1e-3, -np.pi / 2 + 1e-3])) if mode == 1 \
            else d(st.floats(-1.5, 1.5))
        R = ref_rodrigues(g, [0, 0, 1]) @ ref_rodrigues(b, [0, 1, 0]) @ ref_rodrigues(a, [1, 0, 0])
        q = None
    d.label("gimbal" if abs(R[2, 0]) > 1 - 1e-9 else "regular")

    def rebuild(e):
        return ref_rodrigues(e.gamma, [0, 0, 1]) @ ref_rodrigues(e.beta, [0, 1, 0]) @ ref_rodrigues(e.alpha, [1, 0, 0])

    e = EULER.make_euler_xyz_from_matrix(R)
    close(rebuild(e), R, atol=1e-6, msg="Euler angles from matrix", R=R)
    ensure(abs(e.beta) <= np.pi / 2 + 1e-9, "beta range")
    if q is not None:
        e = EULER.make_euler_xyz_from_quaternion(q)
        close(rebuild(e), R, atol=1e-6, msg="Euler angles from quaternion", q=q)


@sub(quick=800)
def expmap_roundtrip(d):
    """unit quaternions incl. identity and half turns -> exponential map -> the same rotation"""
    q = d(rotation())
    if q[0] == 0.0:
        d.label("exact half turn (known finding KF1, excluded)")
        d.nontrivial(False)
        return
    v = EXP.log(q)
    if np.linalg.norm(q[1:]) > 1e-12:
        close(np.linalg.norm(v), 2 * np.arctan2(np.linalg.norm(q[1:]), q[0]), atol=1e-7,
              msg="length of log is the rotation angle", q=q)
    same_rotation(EXP.exp(v), q, 1e-7, "exp(log(q))", q=q)
    same_rotation(EXP.to_quaternion(EXP.to_expmap(q)), q, 1e-7, "to_quaternion(to_expmap(q))", q=q)


@sub(quick=800)
def expmap_exp(d):
    """rotation vectors of length 0..20 incl. near multiples of pi: exp/to_matrix/reparameterization keep the rotation"""
    u = d(unit())
    th = d(st.one_of(st.floats(0, 20), angle().map(abs), st.integers(0, 6).map(lambda k: k * np.pi),
                     st.sampled_from([1e-7, 9e-7, 1e-6, 2e-6, 1e-5])))
    v = th * u
    v0 = v.copy()
    d.nontrivial(th > 1e-9)
    R = ref_rodrigues(th, u)
    q = EXP.exp(v)
    close(np.linalg.norm(q), 1.0, msg="exp is unit")
    close(ref_matrix(q), R, atol=1e-8, msg="exp(v)", v=v)
    close(ref_matrix(EXP.exp(v, False)), R, atol=1e-8, msg="exp(v) without reparameterization", v=v)
    close(EXP.exp(v, False), np.concatenate(([np.cos(th / 2)], np.sin(th / 2) * u)), atol=1e-8, msg="exp components")
    close(EXP.to_matrix(v), R, atol=1e-8, msg="to_matrix(v)", v=v)
    w = EXP.reparameterization(v)
    ensure(np.linalg.norm(w) <= np.pi + 1e-8, "reparameterized vector is at most pi long", w=w)
    if np.linalg.norm(w) > 0:
        close(ref_rodrigues(np.linalg.norm(w), w), R, atol=1e-8, msg="reparameterization keeps the rotation", v=v)
    close(v, v0, atol=0, rtol=0, msg="input changed")


@sub(quick=100)
def degrees(d):
    """angles: degrees <-> radians"""
    a = d(num(-1000, 1000))
    close(ANGLE.radians_to_degrees(ANGLE.degrees_to_radians(a)), a, msg="deg round trip")
    close(ANGLE.degrees_to_radians(a), np.deg2rad(a), msg="deg2rad")
    close(ANGLE.radians_to_degrees(a), np.rad2deg(a), msg="rad2deg")


if __name__ == "__main__":
    sys.exit(main("C02"))
