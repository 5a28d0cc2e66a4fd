"""C32: stresses are derivatives of energies, frame-indifferent, isotropic, zero at rest and linearise to Hooke's law."""
from pbt import *
import rainbow.simulators.prox_soft_bodies.mechanics as ME

MODELS = ["SVK", "SNH", "COR"]


def lame(d):
    E, nu = 10.0 ** d.int(0, 9) * d(pos(0.5, 5)), d(num(0.0, 0.48))
    lam, mu = ME.first_lame(E, nu), ME.second_lame(E, nu)
    return E, nu, lam, mu


def defgrad(d, lo=0.5, hi=1.8, invert=False):
    """R1 diag(s) R2 with positive stretches (one flipped if invert)"""
    s = np.array([d(pos(lo, hi)) for _ in range(3)])
    if invert:
        s[0] = -s[0]
    return ref_matrix(d(quat())) @ np.diag(s) @ ref_matrix(d(quat()))


def model(d):
    m = d.pick(MODELS)
    d.label(m)
    return m, getattr(ME, m)


@sub(quick=300)
def potential(d):
    """stress against the numerical gradient of the energy; non-trivial unless F is a rotation"""
    E, nu, lam, mu = lame(d)
    m, M = model(d)
    F = defgrad(d, invert=m != "COR" and d.int(0, 4) == 0)
    d.nontrivial(np.abs(F.T @ F - np.eye(3)).max() > 1e-3)
    F0 = F.copy()
    P = M.pk1_stress(F, lam, mu)
    psi = M.energy_density(F, lam, mu)
    close(F, F0, atol=0, msg=m + " overwrites its argument")
    ensure(np.shape(P) == (3, 3) and np.ndim(psi) == 0, m + ": shapes", stress=np.shape(P), energy=np.shape(psi))
    sc = lam + 2 * mu
    h = 1e-4
    G = np.zeros((3, 3))
    for i in range(3):
        for j in range(3):
            D = np.zeros((3, 3))
            D[i, j] = h
            G[i, j] = (8 * (M.energy_density(F + D, lam, mu) - M.energy_density(F - D, lam, mu))
                       - (M.energy_density(F + 2 * D, lam, mu) - M.energy_density(F - 2 * D, lam, mu))) / (12 * h)
    close(P, G, atol=1e-6 * sc, rtol=1e-6, msg=m + ": stress is not the gradient of the energy")


@sub(quick=300)
def indifference_and_isotropy(d):
    """rotating the world or the material: P(QF)=Q P(F), P(FQ)=P(F)Q, equal energies; non-trivial unless Q or F is trivial"""
    E, nu, lam, mu = lame(d)
    m, M = model(d)
    F, Q = defgrad(d), ref_matrix(d(quat_generic()))
    d.nontrivial(np.abs(F.T @ F - np.eye(3)).max() > 1e-3)
    sc = lam + 2 * mu
    P, psi = M.pk1_stress(F, lam, mu), M.energy_density(F, lam, mu)
    close(M.pk1_stress(Q @ F, lam, mu), Q @ P, atol=1e-9 * sc, rtol=1e-9, msg=m + ": stress is not frame-indifferent")
    close(M.pk1_stress(F @ Q, lam, mu), P @ Q, atol=1e-9 * sc, rtol=1e-9, msg=m + ": stress is not isotropic")
    for X in (Q @ F, F @ Q):
        close(M.energy_density(X, lam, mu), psi, atol=1e-9 * sc, rtol=1e-9, msg=m + ": energy depends on a rotation")
    tau = P @ F.T
    close(tau, tau.T, atol=1e-9 * sc, rtol=1e-9, msg=m + ": Kirchhoff stress is not symmetric (angular momentum)")


@sub(quick=300)
def rest_state_and_hooke(d):
    """rotations are stress-free energy minima and small strains follow Hooke's law with the Lame parameters; non-trivial always"""
    E, nu, lam, mu = lame(d)
    m, M = model(d)
    R = ref_matrix(d(quat()))
    sc = lam + 2 * mu
    close(M.pk1_stress(R, lam, mu), np.zeros((3, 3)), atol=1e-10 * sc, msg=m + ": a rotation causes stress")
    psi0 = M.energy_density(R, lam, mu)
    if m != "SNH":
        close(psi0, 0.0, atol=1e-12 * sc, msg=m + ": a rotation has energy")
    F = defgrad(d, 0.6, 1.6)
    ensure(M.energy_density(F, lam, mu) >= psi0 - 1e-9 * sc, m + ": rest state is not an energy minimum", F=F)
    e = np.array([[d(num(-1, 1)) for _ in range(3)] for _ in range(3)])
    e = (e + e.T) / 2
    h = 1e-5
    P = (M.pk1_stress(np.eye(3) + h * e, lam, mu) - M.pk1_stress(np.eye(3) - h * e, lam, mu)) / (2 * h)
    close(P, lam * np.trace(e) * np.eye(3) + 2 * mu * e, atol=1e-5 * sc, msg=m + ": small strains do not follow Hooke's law")
    close(E, mu * (3 * lam + 2 * mu) / (lam + mu), rtol=1e-9, msg="Young's modulus of the Lame parameters")
    close(nu, lam / (2 * (lam + mu)), rtol=1e-9, atol=1e-12, msg="Poisson ratio of the Lame parameters")


@sub(quick=200)
def tensors(d):
    """strain and stress tensors against their definitions, traction invariance of the Cauchy stress; non-trivial with two gradients"""
    n = d.int(1, 4)
    Fs = np.array([defgrad(d) for _ in range(n)])
    d.nontrivial(n > 1)
    E_, nu, lam, mu = lame(d)
    S, Pk = [], []
    for F in Fs:
        C = ME.right_cauchy_strain_tensor(F)
        close(C, F.T @ F, atol=1e-12, msg="right Cauchy-Green tensor")
        E = ME.green_strain_tensor(F)
        close(E, (F.T @ F - np.eye(3)) / 2, atol=1e-12, msg="Green strain")
        S.append(lam * np.trace(E) * np.eye(3) + 2 * mu * E)
        Pk.append(ME.SVK.pk1_stress(F, lam, mu))
    sig = ME.cauchy_stress_tensor(Fs, np.array(S))
    for F, P, s in zip(Fs, Pk, sig):
        close(s, s.T, atol=1e-9 * (lam + mu), rtol=1e-9, msg="Cauchy stress is not symmetric")
        close(s * np.linalg.det(F), P @ F.T, atol=1e-9 * (lam + mu), rtol=1e-9, msg="Cauchy stress does not belong to the Piola-Kirchhoff stress")


@sub(quick=150)
def moduli(d):
    """Lame parameters of nearly incompressible materials and Cauchy stresses of strongly compressed or stretched ones; non-trivial if strongly compressed"""
    E, nu = 10.0 ** d.int(0, 9) * d(pos(0.5, 5)), d.pick([d(num(0.0, 0.49)), 0.5 - 10.0 ** -d(num(1, 6)), d(num(-0.5, 0.0))])
    lam, mu = ME.first_lame(E, nu), ME.second_lame(E, nu)
    close(mu * (3 * lam + 2 * mu), E * (lam + mu), rtol=1e-9, msg="Young modulus of the Lame parameters", E=E, nu=nu)
    close(lam, 2 * nu * (lam + mu), rtol=1e-9, atol=1e-9 * E, msg="Poisson ratio of the Lame parameters", E=E, nu=nu)
    n = d.int(1, 3)
    Fs = np.array([defgrad(d, 0.02, 10.0) for _ in range(n)])
    S = np.array([(lambda a: a + a.T)(np.random.RandomState(d.int(0, 9999)).uniform(-1, 1, (3, 3))) for _ in range(n)])
    d.nontrivial(min(np.linalg.det(F) for F in Fs) < 0.1)
    sig = ME.cauchy_stress_tensor(Fs, S)
    for F, s, P in zip(Fs, sig, S):
        want = F @ P @ F.T / np.linalg.det(F)
        close(s, want, rtol=1e-9, atol=1e-9 * np.abs(want).max(), msg="Cauchy stress of large deformations", F=F)


# Young modulus, Poisson ratio and density of the materials (SI units)
TABLE = {"cartilage": (0.69e6, 0.018, 1000), "cortical bone": (16.16e9, 0.33, 1600), "cancellous bone": (452e6, 0.3, 1600), "rubber": (0.01e9, 0.48, 1050),
         "concrete": (30e9, 0.20, 2320), "copper": (125e9, 0.35, 8900), "steel": (210e9, 0.31, 7800), "aluminium": (72e9, 0.34, 2700), "glass": (50e9, 0.18, 2190)}


@sub(quick=60)
def materials(d):
    """named materials have the parameters of a table in the check, do not depend on upper/lower case, are admissible (E>0, 0<nu<1/2, rho>0) and unlike the default; non-trivial for a known name"""
    names = ["cartilage", "cortical bone", "cancellous bone", "rubber", "concrete", "copper", "steel", "aluminium", "glass"]
    n = d.pick(names + [None, "unobtainium"])
    E, nu, rho = ME.create_material_parameters(n)
    ensure(E > 0 and 0 <= nu < 0.5 and rho > 0, "material parameters", material=n, E=E, nu=nu, rho=rho)
    d.nontrivial(n in names)
    if n in names:
        close([E, nu, rho], TABLE[n], rtol=1e-9, msg="parameters of " + n)
    default = ME.create_material_parameters()
    if n in names:
        mixed = "".join(c.upper() if d.bool() else c for c in n)
        ensure(ME.create_material_parameters(mixed) == (E, nu, rho), "material depends on the case of its name", name=mixed)
        ensure((E, nu, rho) != default, "a known material has default parameters", name=n)
        for m in names:
            if m != n:
                ensure(ME.create_material_parameters(m) != (E, nu, rho), "two materials have the same parameters", names=(m, n))
    else:
        ensure((E, nu, rho) == default, "an unknown material does not get default parameters", name=n)


if __name__ == "__main__":
    sys.exit(main("C32", ["Stretches between 0.5 and 1.8 (mirrored elements only for SVK and SNH); Poisson ratios up to 0.48."]))
