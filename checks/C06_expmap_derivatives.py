"""C06 - exponential-map derivatives are the derivatives of the exponential map."""
from pbt import *
import rainbow.math.expmap as EXP


def expq(v):
    th = np.linalg.norm(v)
    s = np.sinc(th / (2 * np.pi)) * 0.5          # sin(th/2)/th
    return np.concatenate(([np.cos(th / 2)], s * np.asarray(v)))


def diff(f, v, i, h=1e-4):
    e = np.zeros(3)
    e[i] = h
    return (8 * (f(v + e) - f(v - e)) - (f(v + 2 * e) - f(v - 2 * e))) / (12 * h)


def rotvec(d):
    u = d(unit())
    th = d(st.one_of(st.floats(0, 12), st.sampled_from([0.0, 1e-9, 1e-7, 9e-7, 1.1e-6, 1e-5, 1e-3, np.pi - 1e-3, np.pi,
                                                       np.pi + 1e-3, 2 * np.pi, 3.5 * np.pi])))
    d.label("0" if th < 1e-6 else "<pi" if th < np.pi else "pi..2pi" if th < 2 * np.pi else ">2pi")
    d.nontrivial(th > 0)
    return th * u, th


@sub(quick=800)
def quaternion_derivative(d):
    """rotation vectors of length 0..12: dQ/dv_i equals the finite difference of the quaternion exponential"""
    v, th = rotvec(d)
    for i in range(3):
        close(EXP.dQdv_i(v, i), diff(expq, v, i), atol=2e-7, msg=f"dQ/dv_{i}", v=v)


@sub(quick=800)
def matrix_derivative(d):
    """rotation vectors of length 0..12: dR/dv_i equals the finite difference of the rotation matrix"""
    v, th = rotvec(d)
    for i in range(3):
        close(EXP.dRdv_i(v, i), diff(lambda x: ref_matrix(expq(x)), v, i), atol=2e-7, msg=f"dR/dv_{i}", v=v)


@sub(quick=800)
def kinematics(d):
    """rotation vector of length 0..5.5 and angular velocity: integrating dv/dt rotates by omega"""
    u = d(unit())
    th = d(st.one_of(st.floats(0, 5.5), st.sampled_from([0.0, 1e-9, 1e-7, 5e-7])))
    v, w = th * u, d(vec(3, -3, 3))
    d.nontrivial(np.linalg.norm(w) > 0 and th > 0)
    d.label("small" if th < 1e-6 else "regular")
    vd = EXP.dvdt(w, v)
    # d/dt exp(v(t)) along vd must be 1/2 (0,w) * q
    if 1e-6 <= th < 1e-4:
        d.nontrivial(False)     # cot(theta/2) - 2/theta cancels catastrophically here; not claimed
        return
    h = 1e-4 / max(1.0, np.linalg.norm(vd))
    num_ = (8 * (expq(v + h * vd) - expq(v - h * vd)) - (expq(v + 2 * h * vd) - expq(v - 2 * h * vd))) / (12 * h)
    want = 0.5 * ref_qmul(np.concatenate(([0.0], w)), expq(v))
    close(num_, want, atol=2e-6, msg="dq/dt = 1/2 w q", v=v, w=w, vdot=vd)


if __name__ == "__main__":
    sys.exit(main("C06"))
