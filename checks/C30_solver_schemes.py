"""C30: all contact solver schemes (Gauss-Seidel, parallel Gauss-Seidel, Jacobi, hybrid Jacobi) solve the same contact problem."""
from pbt import *
import itertools
from contactgen import bodies_with_contacts, coulomb_error
import rainbow.simulators.prox_rigid_bodies.api as API
import rainbow.simulators.prox_rigid_bodies.types as RT
import rainbow.simulators.prox_rigid_bodies.state_storage as SS
import rainbow.simulators.prox_rigid_bodies.constraints as PB
import rainbow.simulators.proximal_contact.prox_solvers as PS

SCHEMES = ["gauss_seidel", "parallel_gauss_seidel", "parallel_jacobi", "parallel_jacboi_hybrid"]


def setup(eng, it, tol=1e-12, small=0.0):
    eng.simulator_type = "rigid_body"
    p = eng.params
    p.max_iterations, p.absolute_tolerance, p.relative_tolerance, p.too_small_merit_change = it, tol, 0.0, small
    s = SS.StateStorage()
    s.copy_from_engine(eng)
    c = PB.Contacts()
    c.initialize(0.01, s, eng)
    return c, c.J.toarray() @ c.WJT.toarray()


def solve(eng, c, scheme, op=None, debug=False, prefix="", one_core=False):
    import numba
    threads = numba.config.NUMBA_NUM_THREADS
    if one_core:
        numba.config.NUMBA_NUM_THREADS = 1
    before = [np.array(c.b), np.array(c.mu), c.J.toarray(), c.WJT.toarray()]
    stats = {}
    try:
        sol, st_ = PS.solve(c.J, c.WJT, c.b, c.mu, op or PS.prox_sphere, eng, stats, debug, prefix, scheme)
    finally:
        numba.config.NUMBA_NUM_THREADS = threads
    for a, b in zip(before, [c.b, c.mu, c.J.toarray(), c.WJT.toarray()]):
        close(b, a, atol=0, msg="solver overwrote the problem")
    return np.array(sol), st_


def clone(eng):
    """an engine of its own with the same bodies, materials and parameters that has not solved anything"""
    new = API.create_engine()
    for k, it in eng.surfaces_interactions.storage.items():
        if k != ("default", "default"):
            API.create_surfaces_interaction(new, *k, it.epsilon, it.mu)
    API.create_gravity_force(new, "g", eng.forces["g"].g, eng.forces["g"].up)
    for nm, b in eng.bodies.items():
        API.create_rigid_body(new, nm)
        o = new.bodies[nm]
        o.r, o.q, o.v, o.w, o.mass, o.inertia, o.is_fixed = b.r, b.q, b.v, b.w, b.mass, b.inertia, b.is_fixed
        API.set_body_material(new, nm, b.material)
        for f in b.forces:
            API.connect_force(new, nm, "g")
    return new


def pairs(d):
    """separate pairs of bodies, each with one contact on the line of centres: uncoupled"""
    eng = API.create_engine()
    for k in range(d.int(1, 3)):
        n = d(unit())
        at = np.array([10.0 * k, 0, 0])
        bs = []
        for nm in (f"a{k}", f"b{k}"):
            API.create_rigid_body(eng, nm)
            b = eng.bodies[nm]
            b.mass, b.inertia = d(pos(0.3, 3)), np.full(3, d(pos(0.3, 2)))
            b.v, b.w, b.r, b.q = d(vec(3, -2, 2)), d(vec(3, -2, 2)), at.copy(), d(quat())
            bs.append(b)
        bs[1].r = at + d(pos(0.5, 1.5)) * n
        if d.int(0, 3) == 0:
            bs[0].is_fixed, bs[0].v, bs[0].w = True, np.zeros(3), np.zeros(3)
        if d.bool():
            bs.reverse()
            n = -n
        eng.contact_points.append(RT.ContactPoint(bs[0], bs[1], (bs[0].r + bs[1].r) / 2, n, 0.0))
    eng.surfaces_interactions.storage["default", "default"].mu = np.full(3, d(num(0.0, 1.0)))
    return eng


@sub(quick=30)
def uncoupled(d):
    """contacts on lines of centres of separate pairs: all schemes find the analytic normal impulses and Coulomb friction, on one-core machines too; non-trivial if one slides and pushes"""
    eng = pairs(d)
    c, A = setup(eng, 2000)
    slide, one_core = False, d.bool()
    for scheme in SCHEMES:
        x, _ = solve(eng, c, scheme, one_core=one_core)
        w = A @ x + c.b
        for k in range(len(x) // 4):
            want = max(0.0, -c.b[4 * k] / A[4 * k, 4 * k])
            close(x[4 * k], want, atol=1e-6 * (1 + want), msg=scheme + ": normal impulse of an uncoupled contact")
            slide |= want > 1e-2 and np.linalg.norm(w[4 * k + 1:4 * k + 3]) > 1e-2
        err = coulomb_error(A, c.b, c.mu, x)
        ensure(err is None, scheme + ": Coulomb's law is violated at an uncoupled contact: " + str(err))
    d.nontrivial(slide)


def check_feasible(eng, c, A, scheme, frictionless):
    x, _ = solve(eng, c, scheme, PS.prox_origin if frictionless else None)
    K = len(x) // 4
    x4, sc = x.reshape(K, 4), 1 + np.abs(x).max()
    ensure((x4[:, 0] >= 0).all(), scheme + ": attractive normal impulse", x=x4[:, 0])
    if frictionless:
        close(x4[:, 1:], np.zeros((K, 3)), atol=0, msg=scheme + ": friction although the friction set is the origin")
    elif scheme != "parallel_jacobi":                                # there the bound lags one iteration behind
        for k in range(K):
            ensure(np.linalg.norm(x4[k, 1:]) <= c.mu[k] * x4[k, 0] + 1e-9 * sc, scheme + ": friction outside the Coulomb ball")
    if not frictionless:
        return x4[:, 0].max() > 1e-3
    N, b = A[::4, ::4], np.array(c.b)[::4]
    if (np.abs(N).sum(axis=1) - np.diag(N) > 0.97 * np.diag(N)).any() or (np.diag(N) <= 0).any():
        return False                       # the steps need not shrink monotonically, so the iteration may give up early
    for I in itertools.product((0, 1), repeat=K):
        I = [i for i in range(K) if I[i]]
        y = np.zeros(K)
        if I:
            y[I] = np.linalg.solve(N[np.ix_(I, I)], -b[I])
        if (y >= -1e-12).all() and (N @ y + b >= -1e-10).all():
            close(x4[:, 0], y, atol=1e-3 * (1 + np.abs(y).max()), msg=scheme + ": differs from the complementarity solution")
            return x4[:, 0].max() > 1e-3
    fail("no complementarity solution")


@sub(quick=30)
def feasible_and_frictionless(d):
    """coupled contacts: impulses are repulsive, friction is in the Coulomb ball (or zero with prox_origin), and frictionless velocities are those of the complementarity problem; non-trivial if a contact pushes"""
    eng = bodies_with_contacts(d, 3, 4)
    c, A = setup(eng, 3000)
    frictionless, nt = d.bool(), True
    for scheme in SCHEMES:
        nt &= check_feasible(eng, c, A, scheme, frictionless)
    d.nontrivial(nt)


@sub(quick=20)
def coulomb_majority(d):
    """seven freely coupled problems: Coulomb's law in full for at least four of them with each scheme (iterative solvers may stop early); non-trivial if every problem has an impulse"""
    scheme = d.pick(SCHEMES)
    d.label(scheme)
    errs, n = [], 0
    for _ in range(7):
        eng = bodies_with_contacts(d, 3, 2)
        cp = eng.contact_points[0]
        for b in (cp.bodyA, cp.bodyB):
            if not b.is_fixed:
                b.v = b.v + (4 if b is cp.bodyA else -4) * cp.n
        c, A = setup(eng, 2000)
        x, _ = solve(eng, c, scheme)
        n += bool(x[::4].max() > 1e-6)
        errs.append(coulomb_error(A, c.b, c.mu, x))
    d.nontrivial(n >= 6)
    bad = [e for e in errs if e]
    ensure(len(bad) < 4, scheme + ": Coulomb's law is violated in most problems", violated=len(bad), first=bad[0] if bad else "")


@sub(quick=8)
def crowd(d):
    """a crowd of up to 26 light bodies around a heavy one and in separate pairs, each contact with its own friction coefficient: Coulomb's law at every contact with all schemes; non-trivial if contacts slide with different coefficients"""
    eng = API.create_engine()
    n = d.pick([2, 4, 9, 15, 16, 17, 18, 19, 21, 22, 23, 26])
    star = d.int(0, n)

    def body(nm, mass, at, v):
        API.create_rigid_body(eng, nm)
        b = eng.bodies[nm]
        b.mass, b.inertia, b.r, b.v, b.q = mass, np.full(3, mass), at, v, np.array([1.0, 0, 0, 0])
        return b
    heavy = body("heavy", 1e4, np.zeros(3), np.zeros(3))
    mus = d.pick([[0.0, 0.4, 0.9], [0.1, 0.7], [0.2, 0.4, 0.6, 0.8, 1.0]])
    order = list(range(n))
    if d.bool():
        order.reverse()
    rng = np.random.default_rng(d.int(0, 10 ** 6))
    slow = d.int(0, 3) == 0
    for k in order:
        u = rng.normal(size=3)
        u /= np.linalg.norm(u)
        t = np.cross(u, rng.normal(size=3))
        at = 3 * u if k < star else np.array([20.0 * k, 0, 0]) + 3 * u
        push = (-1) ** int(slow and k % 3 == 1) * rng.uniform(0.5, 1.5)
        a = body(f"a{k}", rng.uniform(0.5, 2), at, -push * u + rng.uniform(0.5, 3) * t / np.linalg.norm(t))
        b = heavy if k < star else body(f"b{k}", rng.uniform(0.5, 2), np.array([20.0 * k, 0, 0]), np.zeros(3))
        if b is not heavy and d.bool():
            b.is_fixed = True
        API.create_surfaces_interaction(eng, f"m{k}", "default", 0.0, np.full(3, mus[k % len(mus)]))
        API.set_body_material(eng, a.name, f"m{k}")
        first = d.bool()
        eng.contact_points.append(RT.ContactPoint(b if first else a, a if first else b, (a.r + b.r) / 2 if b is not heavy else 1.5 * u, u if first else -u, 0.0))
    c, A = setup(eng, 400)
    close(c.mu, [mus[k % len(mus)] for k in order], atol=0, msg="friction coefficients of the contacts")
    slid = set()
    for scheme in SCHEMES:
        x, _ = solve(eng, c, scheme)
        err = coulomb_error(A, c.b, c.mu, x)
        ensure(err is None, scheme + ": Coulomb's law is violated in a crowd of bodies: " + str(err), contacts=n)
        w = A @ x + c.b
        for k in range(n):
            ensure(w[4 * k] > -1e-3, scheme + ": bodies still approach", contact=k, w=w[4 * k])
            ensure(np.linalg.norm(x[4 * k + 1:4 * k + 4]) <= c.mu[k] * x[4 * k] + 1e-4, scheme + ": friction outside the Coulomb ball", contact=k)
            if x[4 * k] > 1e-2 and np.linalg.norm(w[4 * k + 1:4 * k + 3]) > 1e-2:
                slid.add(float(c.mu[k]))
    d.nontrivial(len(slid) > 1)


def reference_sweep(A, b, mu, r, x, order, scheme):
    """one sweep in the given order, from the definition of the scheme"""
    x, old = x.copy(), x.copy()
    seidel = scheme in SCHEMES[:2]
    for k in order:
        i = np.arange(4 * k, 4 * k + 4)
        z = x[i] - r[i] * (A[i] @ (x if seidel else old) + b[i])
        xn = max(0.0, z[0])
        xf = PS.prox_sphere(z[1], z[2], z[3], mu[k], old[4 * k] if scheme == "parallel_jacobi" else xn)
        x[i] = xn, *xf
    return x


@sub(quick=80)
def sweeps(d):
    """every recorded iterate is one sweep of the scheme: Gauss-Seidel uses the newest impulses of all contacts treated before (in some order), Jacobi those of the previous sweep; non-trivial if the order matters"""
    chain = d.bool()
    eng = bodies_with_contacts(d, 6, 5, 2, fixed=not chain)
    if chain:                                                     # a chain of bodies, contacts in any order
        bs = list(eng.bodies.values())
        at = d(st.permutations(range(len(bs) - 1)))
        for cp, k in zip(eng.contact_points, at):
            bs[k].r, bs[k + 1].r = np.array([k, 0.0, 0]), np.array([k + 1.0, 0, 0])
            cp.bodyA, cp.bodyB = d.pick([(bs[k], bs[k + 1]), (bs[k + 1], bs[k])])
            cp.p = (bs[k].r + bs[k + 1].r) / 2 + 0.2 * cp.n
            cp.n = cp.bodyB.r - cp.bodyA.r
        eng.contact_points = eng.contact_points[:len(at)]
        while len(eng.contact_points) < len(at):
            k = at[len(eng.contact_points)]
            eng.contact_points.append(RT.ContactPoint(bs[k], bs[k + 1], np.array([k + 0.5, 0, 0.1]), np.array([1.0, 0, 0]), 0.0))
    for cp in eng.contact_points:
        for body, s in ((cp.bodyA, 1), (cp.bodyB, -1)):
            if not body.is_fixed:
                body.v = body.v + s * d(num(0, 2)) * cp.n
    c, A = setup(eng, d.int(1, 4))
    p = eng.params
    p.nu_reduce = p.nu_increase = 1.0                                # keeps the step lengths
    diag = np.diag(A).copy()
    diag[diag == 0] = 1
    r = 0.1 / diag
    t = r.reshape(-1, 4)[:, 1:3]
    t[:] = t.min(axis=1, keepdims=True)
    b, mu, K = np.array(c.b), np.array(c.mu), len(c.mu)
    differs = False
    for scheme in SCHEMES:
        _, st_ = solve(eng, c, scheme, debug=True, prefix="p_")
        x = np.zeros(4 * K)
        n = min(st_["p_iterations"] + 1, p.max_iterations)
        for it in range(n):
            got = st_["p_lambda"][it]
            orders = itertools.permutations(range(K)) if scheme in SCHEMES[:2] else [range(K)]
            err = np.inf
            for o in orders:
                want = reference_sweep(A, b, mu, r, x, o, scheme)
                err = min(err, np.abs(got - want).max() / (1 + np.abs(want).max()))
                if err < 1e-11:
                    break
            ensure(err < 1e-11, scheme + ": an iterate is not a sweep of the scheme", sweep=it, contacts=K, error=err)
            if scheme == SCHEMES[0]:
                differs |= np.abs(got - reference_sweep(A, b, mu, r, x, range(K), SCHEMES[3])).max() > 1e-6
            if not st_["p_reject"][it]:
                x = got.copy()
    d.nontrivial(differs)


@sub(quick=60)
def engine_reused(d):
    """the solution of a contact problem does not depend on which problems the engine has solved before: contacts are replaced, reordered and restored; non-trivial if two problems have equally many contacts"""
    eng = bodies_with_contacts(d, 6, 6, 2, fixed=False)
    bs, all_ = list(eng.bodies.values()), list(eng.contact_points)
    scheme = SCHEMES[d.int(0, 10 ** 6) * 7919 % 4]
    d.label(scheme)
    problems, same = [], False
    for _ in range(d.int(2, 4)):
        cps = []
        n = d.pick([len(all_), len(all_), max(1, len(all_) - 1)])
        for cp in all_[:n]:
            i, j = d(st.permutations(range(len(bs))))[:2]
            cps.append(RT.ContactPoint(bs[i], bs[j], (bs[i].r + bs[j].r) / 2 + 0.3 * cp.n, d(unit()), cp.g))
        same |= any(len(cps) == len(o) for o in problems)
        problems.append(cps)
    d.nontrivial(same)
    it = d.int(1, 20)

    def run(e, cps):
        names = [(cp.bodyA.name, cp.bodyB.name) for cp in cps]
        e.contact_points = [RT.ContactPoint(e.bodies[a], e.bodies[b], cp.p, cp.n, cp.g) for (a, b), cp in zip(names, cps)]
        c, _ = setup(e, it)
        return solve(e, c, scheme)[0]

    fresh = [run(clone(eng), cps) for cps in problems]
    for k in d(st.permutations(range(len(problems)))) + [0]:
        x = run(eng, problems[k])
        close(x, fresh[k], atol=1e-9 * (1 + np.abs(fresh[k]).max()), msg=scheme + ": the solution depends on problems solved before", problem=k)


@sub(quick=60)
def profiling(d):
    """profiling does not change the solution and records residuals, iterations and exit code; unknown schemes are refused; non-trivial if the solver converged"""
    eng = bodies_with_contacts(d, 3, 3)
    c, A = setup(eng, d.int(1, 60), 10.0 ** -d.int(2, 6), 0.01)
    eng.params.relative_tolerance = d.pick([0.0, 1e-4, 1e-2])
    scheme, prefix = d.pick(SCHEMES), d.pick(["", "p_"])
    x, st0 = solve(eng, c, scheme, debug=False, prefix=prefix)
    y, st1 = solve(eng, c, scheme, debug=True, prefix=prefix)
    close(y, x, atol=1e-12 * (1 + np.abs(x).max()), msg=scheme + ": profiling changes the solution")
    ensure(not st0, "statistics without profiling", keys=list(st0))
    pre = prefix or scheme + "_"
    ensure(all(k.startswith(pre) for k in st1) and len(st1) > 3, "names of statistics", keys=list(st1))
    res, code, it = st1[pre + "residuals"], st1[pre + "exitcode"], st1[pre + "iterations"]
    p = eng.params
    n = it + 1 if code else p.max_iterations
    ensure(len(res) == p.max_iterations and np.isfinite(res[:n]).all() and np.isinf(res[n:]).all(), "recorded residuals", iterations=it, residuals=res)
    ensure(code in (0, 1, 2), "exit code", code=code)
    if code == 1:
        ensure(res[it] < p.absolute_tolerance, "absolute convergence without a small residual")
    ensure((res[:n - 1] >= p.absolute_tolerance).all(), "went on after convergence")
    if code == 0:
        ensure(it == p.max_iterations and res[-1] >= p.absolute_tolerance, "no convergence, but stopped")
    d.nontrivial(code != 0)
    try:
        solve(eng, c, d.pick(["", "jacobi", "GAUSS_SEIDEL", "gauss-seidel"]))
    except NotImplementedError:
        return
    fail("an unknown scheme is accepted")


@sub(quick=150)
def accept_and_roll_back(d):
    """a solver with scripted sweeps against a reference of the scheme: larger residuals are rolled back with smaller steps, others accepted, until a tolerance is met; non-trivial if an iterate is accepted after one was rolled back"""
    from rainbow.simulators.proximal_contact.solver_interface import SolverInterface
    eng = bodies_with_contacts(d, 2, 3)
    n = d.int(4, 10)
    c, A = setup(eng, n, 10.0 ** d(num(-6, -3)))
    p = eng.params
    p.relative_tolerance = d.pick([0.0, 1e-6, 0.0, 1e-2])
    p.nu_reduce, p.nu_increase, p.too_small_merit_change = d(num(0.2, 0.9)), d(num(1.1, 2.0)), d.pick([0.0, 1e-2, 1.0])
    steps = [10.0 ** d(num(-2, 1)) * np.array(d(vec(len(c.b), -1, 1))) for _ in range(n)]
    seen, in_place = [], d.bool()

    class Scripted(SolverInterface):
        def sweep(self):
            k = len(seen)
            seen.append((np.array(self.x), np.array(self.r)))
            if in_place:
                self.x += steps[k]
            else:
                self.x = self.x + steps[k]

    s = Scripted(c.J, c.WJT, c.b, c.mu, PS.prox_sphere, eng, {}, False, "")
    sol, _ = s.solve()
    x, factor, last, again, rolled = np.zeros(len(c.b)), 1.0, np.inf, False, False
    r0 = seen[0][1]
    ensure((r0 > 0).all(), "r-factors are not positive")
    k = 0
    for k in range(n):
        ensure(k < len(seen), "the solver stopped too early", sweeps=len(seen), want_more_than=k)
        close(seen[k][0], x, atol=1e-12 * (1 + np.abs(x).max()), rtol=0, msg="a sweep does not start from the last accepted iterate")
        close(seen[k][1], factor * r0, rtol=1e-10, atol=0, msg="r-factors of a sweep")
        merit = np.abs(steps[k]).max()
        for tol, val in ((p.absolute_tolerance, merit), (p.relative_tolerance * last, abs(merit - last))):
            if np.isfinite(tol) and abs(val - tol) <= 1e-9 * (1 + tol):
                return                                    # a tie, decided by round-off
        if merit < p.absolute_tolerance or abs(merit - last) < p.relative_tolerance * last:
            break
        if merit > last:
            factor *= p.nu_reduce
            rolled = True
        else:
            if abs(last - merit - p.too_small_merit_change) < 1e-9:
                return
            if last - merit < p.too_small_merit_change:
                factor *= p.nu_increase
            again |= rolled
            last, x = merit, x + steps[k]
    d.nontrivial(again)
    ensure(len(seen) == k + 1, "number of sweeps", got=len(seen), want=k + 1)
    close(sol, x, atol=1e-12 * (1 + np.abs(x).max()), rtol=0, msg="the solution is not the last accepted iterate")


@sub(quick=20)
def units(d):
    """one coupled problem in two systems of units (masses and velocities scaled by powers of two): every scheme finds the same impulses; non-trivial if the masses change and a contact pushes"""
    eng = bodies_with_contacts(d, 4, 5)
    m, v = 2.0 ** d.int(-30, 30), 2.0 ** d.int(-12, 12)
    pushes = False
    for scheme in SCHEMES:
        c, A = setup(eng, 60, tol=0.0)
        a, sa = solve(eng, c, scheme)
        c.WJT, c.b = c.WJT / m, np.array(c.b) * v
        b, sb = solve(eng, c, scheme)
        pushes |= np.abs(a).max() > 1e-3
        close(b / (m * v), a, atol=1e-9 * (1 + np.abs(a).max()), msg=scheme + ": impulses depend on the units")
    d.nontrivial(m != 1 and pushes)


if __name__ == "__main__":
    sys.exit(main("C30", ["Isotropic friction; convergence is granted for well-conditioned frictionless and uncoupled problems, otherwise judged by majority.",
                          "The hybrid scheme is selected by its published (misspelt) name."]))
