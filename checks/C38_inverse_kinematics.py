"""C38: forward kinematics and its derivatives: poses, Jacobian, gradient and Hessian of the goal objective are exact."""
from pbt import *
import ikgen
from ikgen import IK
import rainbow.math.quaternion as Q


def effectors(s, chains, th):
    R, t = s.frames(th)
    return [t[c.bones[-1]] + R[c.bones[-1]] @ c.tool for c in chains]


def ref_jacobian(s, chains, th):
    """complex-step derivative of the reference forward kinematics"""
    n = len(th)
    J = np.zeros((3 * len(chains), n))
    for i in range(n):
        x = th.astype(complex)
        x[i] += 1e-30j
        J[:, i] = np.concatenate([e.imag for e in effectors(s, chains, x)]) / 1e-30
    return J


def ref_gradient(s, chains, th):
    r = np.concatenate([c.goal - e for c, e in zip(chains, effectors(s, chains, th))])
    return -ref_jacobian(s, chains, th).T @ r


def ref_objective(s, chains, th):
    return 0.5 * sum(float((c.goal - e) @ (c.goal - e)) for c, e in zip(chains, effectors(s, chains, th)))


def ref_hessian(s, chains, th, h=1e-5):
    n = len(th)
    H = np.zeros((n, n))
    for i in range(n):
        e = np.zeros(n)
        e[i] = h
        H[i] = (ref_gradient(s, chains, th + e) - ref_gradient(s, chains, th - e)) / (2 * h)
    return H


def poses(S):
    return [(b.t_wcs.copy(), b.q_wcs.copy()) for b in S.bones]


@sub(quick=250, thorough=4000)
def forward_kinematics(d):
    """bone frames and end-effectors equal the product of the joint transforms in any tree and any Euler convention, also after angles change; non-trivial if two or more bones"""
    s, S, chains = ikgen.setup(d, big=40)
    far = 10.0 ** d.int(0, 5)                              # goals out of reach, near or very far
    for c in chains:
        c.goal = c.goal * far
    for rnd in range(d.int(1, 3)):
        R, t = s.frames()
        for b in S.bones:
            close(b.t_wcs, t[b.idx], atol=1e-9, msg=f"origin of bone {b.idx}")
            close(ref_matrix(b.q_wcs), R[b.idx], atol=1e-9, msg=f"orientation of bone {b.idx}")
            close(float(np.linalg.norm(b.q_wcs)), 1.0, atol=1e-9, msg="unit quaternion")
        for c, e in zip(chains, effectors(s, chains, s.angles)):
            close(IK.get_end_effector(c, S), e, atol=1e-9, msg="end effector with tool")
        close(IK.compute_objective(chains, S), ref_objective(s, chains, s.angles), atol=1e-9, rtol=1e-9, msg="objective")
        rng = np.random.RandomState(d.int(0, 9999))
        s.angles = rng.uniform(-7, 7, len(s.angles))
        if d.bool():
            IK.set_joint_angles(S, s.angles)
        else:
            for i in rng.permutation(len(s.angles)):
                IK.set_angle(int(i), s.angles[i], S)
        IK.update_skeleton(S)
    d.nontrivial(len(s.parents) > 1)


@sub(quick=200, thorough=3000)
def jacobian_and_gradient(d):
    """Jacobian and gradient equal complex-step derivatives of the reference kinematics; computing them changes nothing; non-trivial if two or more bones"""
    s, S, chains = ikgen.setup(d, big=25)
    before = poses(S)
    J = IK.compute_jacobian(chains, S)
    close(J, ref_jacobian(s, chains, s.angles), atol=1e-8, msg="Jacobian")
    J0 = J.copy()
    g = IK.compute_gradient(chains, S, J)
    close(g, ref_gradient(s, chains, s.angles), atol=1e-7, rtol=1e-8, msg="gradient")
    close(J, J0, atol=0, msg="the gradient changed the Jacobian")
    close(IK.get_joint_angles(S), s.angles, atol=0, msg="angles")
    for (t, q), (t1, q1) in zip(before, poses(S)):
        ensure((t == t1).all() and (q == q1).all(), "poses changed")
    d.nontrivial(len(s.parents) > 1)


@sub(quick=120, thorough=2000)
def hessian(d):
    """the Hessian is symmetric and equals differences of the exact gradient, in any pose, Euler convention and tree; non-trivial if two or more bones"""
    s, S, chains = ikgen.setup(d, 5)
    J = IK.compute_jacobian(chains, S)
    J0 = J.copy()
    H = IK.compute_hessian(chains, S, J)
    close(H, H.T, atol=1e-8, rtol=1e-8, msg="symmetry of the Hessian")
    want = ref_hessian(s, chains, s.angles)
    close(H, want, atol=1e-4, rtol=1e-5, msg="Hessian")
    close(J, J0, atol=0, msg="the Hessian changed the Jacobian")
    d.nontrivial(len(s.parents) > 1)


@sub(quick=60, thorough=1000)
def finite_differences(d):
    """the finite-difference gradient and Hessian converge to the exact ones and leave the skeleton exactly as it was; non-trivial if two or more bones"""
    s, S, chains = ikgen.setup(d, 3)
    before = poses(S)
    mode = d.pick(["gradient", "hessian"])
    d.label(mode)
    if mode == "gradient":
        h = d.pick([1e-5, 1e-4])
        close(IK.compute_finite_difference_gradient(chains, S, h), ref_gradient(s, chains, s.angles), atol=1e-4, rtol=1e-4, msg="finite-difference gradient")
    else:
        close(IK.compute_finite_difference_hessian(chains, S, 1e-3), ref_hessian(s, chains, s.angles), atol=2e-3, rtol=1e-3, msg="finite-difference Hessian")
    # With a coarse step the results are the documented central differences of the objective
    h = d.pick([None, 0.1, 0.02, 0.5])
    step, N = 0.1 if h is None else h, len(s.angles)
    f = lambda *moves: ref_objective(s, chains, s.angles + sum(moves))
    E = step * np.eye(N)
    args = () if h is None else (h,)
    scale = 1.0 + abs(f(np.zeros(N)))
    if mode == "gradient":
        want = np.array([(f(E[i]) - f(-E[i])) / (2 * step) for i in range(N)])
        close(IK.compute_finite_difference_gradient(chains, S, *args), want, atol=1e-11 * scale / step, rtol=1e-9, msg="central differences")
    elif N <= 6 or d.bool():
        want = np.zeros((N, N))
        for i in range(N):
            for j in range(i + 1):
                if i == j:
                    want[i, i] = (f(E[i]) - 2 * f(np.zeros(N)) + f(-E[i])) / step**2
                else:
                    want[i, j] = want[j, i] = (f(E[i], E[j]) - f(E[i], -E[j]) - f(-E[i], E[j]) + f(-E[i], -E[j])) / (4 * step**2)
        close(IK.compute_finite_difference_hessian(chains, S, *args), want, atol=1e-11 * scale / step**2, rtol=1e-8, msg="central second differences")
    close(IK.get_joint_angles(S), s.angles, atol=1e-12, msg="joint angles afterwards")
    for (t, q), (t1, q1) in zip(before, poses(S)):
        close(t1, t, atol=1e-9, msg="bone origin afterwards")
        close(q1, q, atol=1e-9, msg="bone orientation afterwards")
    d.nontrivial(len(s.parents) > 1)


@sub(quick=60, thorough=1000)
def descent(d):
    """a small step against the gradient lowers the objective, damped Newton steps reach a stationary point of it; non-trivial if the gradient is not tiny"""
    s, S, chains = ikgen.setup(d, 4)
    J = IK.compute_jacobian(chains, S)
    g = IK.compute_gradient(chains, S, J)
    f = IK.compute_objective(chains, S)
    n = float(np.linalg.norm(g))
    d.nontrivial(n > 1e-3)
    if n <= 1e-3:
        return
    step = 1e-4 / (1 + n)
    IK.set_joint_angles(S, s.angles - step * g)
    IK.update_skeleton(S)
    f1 = IK.compute_objective(chains, S)
    ensure(f1 < f, "a small step against the gradient does not lower the objective", before=f, after=f1)
    close((f - f1) / step, n * n, rtol=0.05, atol=1e-3 * n, msg="rate of decrease")


@sub(quick=60, thorough=500)
def second_order_model(d):
    """the quadratic model from gradient and Hessian predicts the objective up to third order; non-trivial if two or more bones"""
    s, S, chains = ikgen.setup(d, 5)
    J = IK.compute_jacobian(chains, S)
    g, H, f = IK.compute_gradient(chains, S, J), IK.compute_hessian(chains, S, J), IK.compute_objective(chains, S)
    dirn = np.random.RandomState(d.int(0, 9999)).uniform(-1, 1, len(g))
    errs = []
    for h in (2e-2, 1e-2):
        IK.set_joint_angles(S, s.angles + h * dirn)
        IK.update_skeleton(S)
        errs.append(abs(IK.compute_objective(chains, S) - f - h * g @ dirn - 0.5 * h * h * dirn @ H @ dirn))
    scale = 1 + f + float(np.linalg.norm(H))
    ensure(errs[1] <= errs[0] / 5 + 1e-5 * scale, "model error does not shrink with the third power of the step", errors=errs)
    d.nontrivial(len(s.parents) > 1)


@sub(quick=60, thorough=300)
def angle_units(d):
    """degrees and radians convert into each other; 360 degrees are a full turn"""
    import rainbow.math.angle as A
    x = d(num(-720, 720))
    close(A.radians_to_degrees(A.degrees_to_radians(x)), x, atol=1e-9, msg="round trip from degrees")
    close(A.degrees_to_radians(A.radians_to_degrees(x)), x, atol=1e-9, msg="round trip from radians")
    close(A.degrees_to_radians(x), np.deg2rad(x), atol=1e-12, msg="degrees to radians")
    close(IK.degrees_to_radians(x), np.deg2rad(x), atol=1e-12, msg="degrees to radians through the IK API")


if __name__ == "__main__":
    sys.exit(main("C38", ["Skeletons of up to 7 bones (Hessians up to 5)."]))
