"""C03 - spherical interpolation moves at constant angular speed along the shortest great arc."""
from pbt import *
import rainbow.math.quaternion as Q


def relative_angle(a, b):
    """Angle (0..pi) of the rotation taking a to b, accurate near 0."""
    c = abs(float(np.dot(a, b)))
    s = min(np.linalg.norm(a - b), np.linalg.norm(a + b))
    return 4.0 * np.arcsin(min(1.0, s / 2.0)) if c > 0.9 else 2.0 * np.arccos(min(1.0, c))


def pair(d):
    a = d(quat_generic())
    mode = d.int(0, 4)
    if mode == 0:
        b = d(quat_generic())
    elif mode == 1:      # nearly the same rotation, either sign of the quaternion
        th = d(st.one_of(st.sampled_from([0.0, 1e-9, 1e-6, 1e-4, 5e-4, 9e-4, 1e-3, 1e-2]), st.floats(-5.0, -0.5).map(lambda x: 10.0 ** x)))
        u = d(unit())
        b = ref_qmul(np.concatenate(([np.cos(th / 2)], np.sin(th / 2) * u)), a)
        b = b * d(st.sampled_from([1.0, -1.0]))
    elif mode == 2:      # nearly a half turn apart
        th = np.pi - d(st.sampled_from([1e-3, 1e-2, 0.1]))
        u = d(unit())
        b = ref_qmul(np.concatenate(([np.cos(th / 2)], np.sin(th / 2) * u)), a) * d(st.sampled_from([1.0, -1.0]))
    else:
        th = d(st.floats(0.01, 3.1))
        u = d(unit())
        b = ref_qmul(np.concatenate(([np.cos(th / 2)], np.sin(th / 2) * u)), a) * d(st.sampled_from([1.0, -1.0]))
    b = b / np.linalg.norm(b)
    return a, b


@sub(quick=1500)
def slerp_arc(d):
    """pairs of unit quaternions incl. nearly equal, antipodal and half-turn apart; t in [0,1] and outside"""
    a, b = pair(d)
    t = d(st.one_of(st.floats(0, 1), st.sampled_from([0.0, 1.0, 0.5, 0.25])))
    full = relative_angle(a, b)
    d.label("antipodal" if np.dot(a, b) < -0.9999 else "negative dot" if np.dot(a, b) < 0 else "positive dot")
    d.nontrivial(full > 1e-5 and 0 < t < 1)
    a0, b0 = a.copy(), b.copy()
    c = Q.slerp(a, b, t)
    close(np.linalg.norm(c), 1.0, atol=1e-9, msg="slerp result is a unit quaternion", a=a, b=b, t=t)
    tol = 1e-9
    close(relative_angle(a, c), t * full, atol=tol, msg="angle from the start is t * total", a=a, b=b, t=t)
    close(relative_angle(c, b), (1 - t) * full, atol=tol, msg="angle to the end is (1-t) * total", a=a, b=b, t=t)
    close(ref_matrix(Q.slerp(a, b, 0.0)), ref_matrix(a), atol=1e-9, msg="t=0 is the start")
    close(ref_matrix(Q.slerp(a, b, 1.0)), ref_matrix(b), atol=1e-9, msg="t=1 is the end")
    close(ref_matrix(Q.slerp(b, a, 1 - t)), ref_matrix(c), atol=5e-9, msg="reversing the arc", a=a, b=b, t=t)
    over = d(st.sampled_from([1.5, 100.0]))
    close(ref_matrix(Q.slerp(a, b, over)), ref_matrix(b), atol=1e-9, msg="t above 1 is clipped")
    close(ref_matrix(Q.slerp(a, b, -over)), ref_matrix(a), atol=1e-9, msg="t below 0 is clipped")
    close(a, a0, atol=0, rtol=0), close(b, b0, atol=0, rtol=0)


@sub(quick=300)
def lerp_line(d):
    """lerp is (1-t)a+tb with t clipped to [0,1]"""
    a, b = d(vec(4)), d(vec(4))
    t = d(num(-2, 3))
    s = min(1.0, max(0.0, t))
    close(Q.lerp(a, b, t), (1 - s) * a + s * b, msg="lerp", t=t)


if __name__ == "__main__":
    sys.exit(main("C03"))
