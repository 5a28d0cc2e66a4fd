"""C07 - bivariate polynomials: evaluation, interpolation, differentiation and printing agree."""
from pbt import *
import re
import rainbow.math.polynomial as POLY


def small():
    return st.one_of(st.integers(-4, 4).map(float), st.sampled_from([0.5, -0.25, 1.0, -1.0, 0.0, 12.125]),
                     st.floats(-10, 10, allow_subnormal=False))


def any_size():
    return st.one_of(small(),
                     st.tuples(st.sampled_from([1.0, -1.0]), st.sampled_from([1.0, -1.0]), st.floats(-15.0, -1.0)).map(lambda t: t[0] * (1.0 + t[1] * 10.0 ** t[2])),   # almost one
                     st.integers(-10**17, 10**17).map(float))


def poly(d, lo=0, hi=4, coef=None):
    n = d.int(lo, hi)
    P = POLY.Poly(2, n)
    coef = coef or small
    c = [d(coef()) for _ in range((n + 1) * (n + 2) // 2)]
    ensure(P.terms == len(c), "number of terms", terms=P.terms, order=n)
    P.coefficients = np.array(c)
    terms = {}
    for (i, j), a in zip(np.asarray(P.powers).tolist(), c):
        ensure((i, j) not in terms, "monomial listed twice", powers=P.powers)
        ensure(i >= 0 and j >= 0 and i + j <= n, "monomial outside the order", powers=P.powers)
        terms[(i, j)] = a
    return P, terms


def value(terms, x, y):
    return sum(a * x ** i * y ** j for (i, j), a in terms.items())


@sub(quick=600)
def evaluate_and_derive(d):
    """random order 0..4 polynomial and point: value and both partial derivatives vs. the monomial sum"""
    P, t = poly(d)
    x, y = d(num(-3, 3)), d(num(-3, 3))
    d.nontrivial(sum(1 for a in t.values() if a) > 1)
    X = np.array([x, y])
    close(POLY.evaluate(P, X), value(t, x, y), atol=1e-8, msg="evaluate")
    close(P(X), value(t, x, y), atol=1e-8, msg="call")
    dx, dy = POLY.derivative(P)
    close(dx(X), sum(i * a * x ** (i - 1) * y ** j for (i, j), a in t.items() if i), atol=1e-7, msg="d/dx")
    close(dy(X), sum(j * a * x ** i * y ** (j - 1) for (i, j), a in t.items() if j), atol=1e-7, msg="d/dy")
    dxx, dxy = POLY.derivative(dx)
    dyx, dyy = POLY.derivative(dy)
    close(dxy(X), dyx(X), atol=1e-6, msg="mixed derivatives commute")
    close(P(X), value(t, x, y), atol=1e-8, msg="derivative must not change its input")


def parse(s):
    """Reads what to_str writes: signed terms 'c x^i y^j' separated by ' + ' / ' - '."""
    toks = s.split(" ")
    terms, sign, cur = [], 1.0, []
    if toks and toks[0].startswith("-"):
        sign, toks[0] = -1.0, toks[0][1:]
    for tk in toks + ["+"]:
        if tk in "+-" and tk:
            c, i, j = sign, 0, 0
            for f in cur:
                m = re.fullmatch(r"([xy])(?:\^(\d+))?", f)
                if m:
                    k = int(m.group(2) or 1)
                    i, j = (i + k, j) if m.group(1) == "x" else (i, j + k)
                else:
                    c *= float(f)
            terms.append(((i, j), c))
            sign, cur = (1.0 if tk == "+" else -1.0), []
        else:
            cur.append(tk)
    return terms


@sub(quick=600)
def printing(d):
    """random polynomial: the printed text reads back as the same polynomial (signs, unit, almost unit, huge, tiny and zero coefficients)"""
    P, t = poly(d, coef=any_size)
    want = {k: a for k, a in t.items() if a != 0}
    s = POLY.to_str(P)
    ensure(str(P) == s, "str() and to_str differ")
    if not want:
        d.nontrivial(False)
        return
    d.label("leading minus" if list(want.values())[0] < 0 else "leading plus")
    got = parse(s)
    ensure(len(dict(got)) == len(got), "duplicate term", s=s)
    ensure(dict(got) == want, "printed polynomial differs", s=s, want=want)


@sub(quick=400)
def interpolation(d):
    """K points in general position (perturbed triangular lattice) and 1..8 value columns: P(x_k) = v_k"""
    n = d.int(1, 4)
    K = (n + 1) * (n + 2) // 2
    pts = np.array([[i, j] for i in range(n + 1) for j in range(n + 1 - i)], dtype=float)
    jit = np.array([[d(st.floats(-0.15, 0.15)), d(st.floats(-0.15, 0.15))] for _ in range(K)])
    perm = d(st.permutations(list(range(K))))
    x = (pts + jit)[perm] * d(st.sampled_from([1.0, 0.5, 2.0])) + d(vec(2, -1, 1))
    extra = d.int(0, 3)
    X = np.vstack((x, np.array([d(vec(2)) for _ in range(extra)]).reshape(extra, 2)))
    cols = d.pick([0, 1, 2, 3, 5, 8])
    if cols == 0:
        v = np.array([d(num()) for _ in range(K + extra)])
        V = v[:, None]
    else:
        v = V = np.array([[d(num()) for _ in range(cols)] for _ in range(K + extra)])
    Ps = POLY.interpolate(n, X, v)
    ensure(len(Ps) == V.shape[1], "one polynomial per column")
    for c, P in enumerate(Ps):
        for k in range(K):
            close(P(X[k]), V[k, c], atol=1e-5, msg="interpolates the data", n=n)


@sub(quick=200)
def recovery(d):
    """interpolating samples of a polynomial of the same order returns its coefficients"""
    P, t = poly(d, 1, 3)
    n = P.order
    K = P.terms
    pts = np.array([[i, j] for i in range(n + 1) for j in range(n + 1 - i)], dtype=float)
    pts = pts[d(st.permutations(list(range(K))))]
    R = POLY.interpolate(n, pts, np.array([value(t, *p) for p in pts]))[0]
    close(R.coefficients, P.coefficients, atol=1e-7, msg="recovers the coefficients")


if __name__ == "__main__":
    sys.exit(main("C07"))
