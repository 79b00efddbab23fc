"""C26: splines, Kronecker products, covariance functions and cell sizes."""
import numpy as np
from hypothesis import strategies as st
from vlib.core import all_histories, scaled
from vlib.core import strided, sz, Sub, sut, imp, expect, expect_raises, close, rng, \
    frozen, unchanged

PROPERTY = "C26"
RULE = ("generated knots, end conditions and evaluation points against "
        "scipy's CubicSpline; generated factor matrices against numpy.kron; "
        "generated vectors against the covariance formula; non-trivial: "
        "four or more knots, two or more factors or dimensions")


def gen_spline(draw):
    return dict(seed=draw(st.integers(0, 2 ** 32 - 1)),
                n=sz(draw, 3, 12, 80),
                types=[draw(st.sampled_from([1, 2])) for _ in range(2)],
                values=[draw(st.sampled_from([0.0, 0.0, 1.5, -2.25]))
                        for _ in range(2)],
                order=draw(st.integers(0, 2)), m=sz(draw, 1, 20, 150),
                pts=draw(st.sampled_from(["within", "knots", "one", "wide",
                                          "below", "above"])),
                default=draw(st.booleans()),
                sort=draw(st.booleans()))


def run_spline(case):
    from scipy.interpolate import CubicSpline
    m = imp("africanus.averaging.splines")
    R = rng(case)
    n = case["n"]
    x = np.cumsum(R.uniform(.2, 1.5, n)) + R.uniform(-5, 5)
    y = R.normal(size=n)
    (lt, rt), (lv, rv) = case["types"], case["values"]
    if case["default"]:
        lt, rt, lv, rv = 2, 2, 0.0, 0.0
    keep = frozen(x, y)
    with sut("fit_cubic_spline"):
        s = m.fit_cubic_spline(x, y) if case["default"] else \
            m.fit_cubic_spline(x, y, lt, rt, lv, rv)
    unchanged((x, y), keep, "fit_cubic_spline")
    ref = CubicSpline(x, y, bc_type=((lt, lv), (rt, rv)))
    k = case["m"]
    p = {"within": R.uniform(x[0], x[-1], k), "knots": x.copy(),
         "one": R.uniform(x[0], x[-1], 1),
         "wide": R.uniform(x[0] - 2, x[-1] + 2, k),
         "below": R.uniform(x[0] - 2, x[0], k),
         "above": R.uniform(x[-1], x[-1] + 2, k)}[case["pts"]]
    if case["sort"]:
        p = np.sort(p)
    with sut("evaluate_spline"):
        v = m.evaluate_spline(s, p, order=case["order"])
    # beyond the knots, the parabola with the end's value, slope and curvature
    w = np.empty(len(p))
    for i, q in enumerate(p):
        e = min(max(q, x[0]), x[-1])
        h = q - e
        d = [ref(e, j) for j in range(3)]
        w[i] = [d[0] + d[1] * h + d[2] * h * h / 2, d[1] + d[2] * h,
                d[2]][case["order"]]
    close(v, w, 1e-9, "spline through %s knots, ends %s %s, order %d, %s" %
          (n, case["types"], case["values"], case["order"], case["pts"]))
    import numba
    excs = (ValueError, numba.core.errors.TypingError)
    expect_raises(excs, "an unknown end condition",
                  lambda: m.fit_cubic_spline(x, y, 3, 2, 0.0, 0.0))
    expect_raises(excs, "an unknown end condition",
                  lambda: m.fit_cubic_spline(x, y, 1, 0, 0.0, 0.0))
    expect_raises(excs, "a third derivative",
                  lambda: m.evaluate_spline(s, p, order=3))
    return n > 3, [case["pts"], "ends %d%d" % (lt, rt)]


def gen_kron(draw):
    D = draw(st.integers(1, 4))
    top = {1: 12, 2: 9, 3: 5, 4: 3}[D]
    dim = st.integers(1, top)
    return dict(seed=draw(st.integers(0, 2 ** 32 - 1)),
                rows=[draw(dim) for _ in range(D)],
                cols=[draw(dim) for _ in range(D)],
                k=draw(st.integers(1, 4)), cplx=draw(st.booleans()),
                big=draw(st.integers(0, 19)))


def stack(ms):
    a = np.empty(len(ms), dtype=object)
    for i, x in enumerate(ms):
        a[i] = x
    return a


def run_kron(case):
    m = imp("africanus.linalg.kronecker_tools")
    R = rng(case)
    rows, cols = list(case["rows"]), list(case["cols"])
    if case["big"] == 0:
        # one factor with more rows and columns than fit in a byte
        rows, cols = [130 + rows[0], 2], [129 + cols[0], 2]

    def rand(*shape):
        a = R.normal(size=shape)
        return a + 1j * R.normal(size=shape) if case["cplx"] else a

    def full(ms):
        o = np.eye(1)
        for x in ms:
            o = np.kron(o, x)
        return o
    sq = [rand(r, r) for r in rows]
    re = [rand(r, c) for r, c in zip(rows, cols)]
    for name, ms in (("mat", sq), ("tensor", re)):
        K = full(ms)
        b, B = rand(K.shape[1]), rand(K.shape[1], case["k"])
        A = stack(ms)
        keep = frozen(*ms + [b, B])
        with sut("kron_%svec" % name):
            v = getattr(m, "kron_%svec" % name)(A, b)
        close(v, K @ b, 1e-12, "kron_%svec of %s" % (
            name, [x.shape for x in ms]), scale=1 + np.abs(K) @ np.abs(b))
        with sut("kron_%smat" % name):
            V = getattr(m, "kron_%smat" % name)(A, B)
        close(V, K @ B, 1e-12, "kron_%smat of %s" % (
            name, [x.shape for x in ms]), scale=1 + np.abs(K) @ np.abs(B))
        with sut("kron_N"):
            n = m.kron_N(A)
        expect(n == len(K), "kron_N of %s: %s", [x.shape for x in ms], n)
        unchanged(ms + [b, B], keep, "the Kronecker products")
    if case["big"] == 0:
        return True, ["big"]
    pd = [x @ x.conj().T + .1 * np.eye(len(x)) for x in sq]
    keep = frozen(*pd)
    with sut("kron_cholesky"):
        L = m.kron_cholesky(stack(pd))
    unchanged(pd, keep, "kron_cholesky")
    for l, k in zip(L, pd):
        close(l @ l.conj().T, k, 1e-11, "kron_cholesky")
        expect(np.all(np.triu(l, 1) == 0), "kron_cholesky: not triangular")
    # singular, as covariance matrices of close points are
    one = [np.ones((r, r)) for r in rows]
    with sut("kron_cholesky of a singular matrix"):
        L = m.kron_cholesky(stack(one))
    for l, k in zip(L, one):
        close(l @ l.T, k, 1e-11, "kron_cholesky of a singular matrix")
    return len(rows) > 1, ["%d factors" % len(rows)]


def gen_cov(draw):
    return dict(seed=draw(st.integers(0, 2 ** 32 - 1)),
                n=sz(draw, 1, 8, 60), np=sz(draw, 1, 8, 60),
                D=draw(st.integers(0, 4)), same=draw(st.booleans()),
                s=draw(st.sampled_from([1.0, .3, 2.5])),
                l=draw(st.sampled_from([1.0, .4, 3.0])))


def run_cov(case):
    m = imp("africanus.gps")
    R = rng(case)
    D = case["D"]
    sh = (D,) if D else ()
    x = R.uniform(-2, 2, (case["n"],) + sh)
    xp = x if case["same"] else R.uniform(-2, 2, (case["np"],) + sh)
    keep = frozen(x, xp)
    with sut("abs_diff"):
        d = m.abs_diff(x, xp)
    a, b = x.reshape(len(x), -1), xp.reshape(len(xp), -1)
    w = np.array([[np.sqrt(sum((p - q) ** 2)) for q in b] for p in a])
    close(d, w, 1e-14, "abs_diff")
    with sut("exponential_squared"):
        k = m.exponential_squared(x, xp, case["s"], case["l"])
    close(k, case["s"] ** 2 * np.exp(-w ** 2 / (2 * case["l"] ** 2)), 1e-14,
          "exponential_squared")
    unchanged((x, xp), keep, "the covariance")
    excs = (NotImplementedError, ValueError)
    if D > 1:
        expect_raises(excs, "the power spectrum in %d dimensions" % D, lambda:
                      m.exponential_squared(x, x, 1.0, 1.0, pspec=True))
    if D == 1 and len(x) > 2:
        expect_raises(excs, "the power spectrum on an irregular grid", lambda:
                      m.exponential_squared(x, x, 1.0, 1.0, pspec=True))
    n = case["n"] + 2
    g = np.arange(n)[:, None] * .25 - 1
    expect_raises(excs, "the power spectrum of two sets", lambda:
                  m.exponential_squared(g, g + 1, 1.0, 1.0, pspec=True))
    with sut("the power spectrum"):
        p = m.exponential_squared(g, g, case["s"], case["l"], pspec=True)
    # falls with the frequency, in order of frequency
    f = np.arange(n) - n // 2
    expect(p.shape == (n,) and np.all(p > 0) and np.all(
        np.diff(p[np.argsort(np.abs(f), kind="stable")]) <= 1e-12 * p.max())
        and p[n // 2] > p[n // 2 - 1], "power spectrum %s", p)
    return D > 1 and len(x) > 1, ["%d dimensions" % D]


def gen_cell(draw):
    return dict(seed=draw(st.integers(0, 2 ** 32 - 1)),
                n=sz(draw, 1, 10, 80), nw=draw(st.integers(1, 5)),
                factor=draw(st.sampled_from([None, 1.0, 2.5, 4.0])),
                arrays=[draw(st.booleans()) for _ in range(3)])


def run_cell(case):
    f = imp("africanus.gridding.util", "estimate_cell_size")
    R = rng(case)
    u, v = R.uniform(-1, 1, (2, case["n"])) * 10 ** R.uniform(1, 4)
    w = R.uniform(.05, 2, case["nw"])
    if not case["arrays"][0]:
        u = float(u[0])
    if not case["arrays"][1]:
        v = float(v[0])
    if not case["arrays"][2]:
        w = float(w[0])
    kw = {} if case["factor"] is None else dict(factor=case["factor"])
    keep = frozen(u, v, w)
    with sut("estimate_cell_size"):
        o = f(u, v, w, **kw)
    k = 2 * (case["factor"] or 3.0) / np.min(w)
    ref = np.array([1 / (k * np.max(np.abs(u))), 1 / (k * np.max(np.abs(v)))])
    ref = ref * 180 / np.pi * 3600
    close(np.asarray(o) / ref, np.ones(2), 1e-12, "estimate_cell_size")
    unchanged((u, v, w), keep, "estimate_cell_size")
    for i in range(3):
        a = [u, v, w]
        a[i] = "1.0"
        expect_raises((TypeError,), "a string for argument %d" % i,
                      lambda: f(*a))
    return case["n"] > 1, []


SUBS = [Sub("spline", gen_spline, run_spline, 400, 10000),
        Sub("kron", gen_kron, run_kron, 200, 3000),
        Sub("covariance", gen_cov, run_cov, 200, 3000),
        Sub("cell_size", gen_cell, run_cell, 150, 1500)]

SUBS += [strided(s, 30, 400) for s in SUBS if s.name in
         ['spline', 'kron', 'covariance']]

for _s in SUBS:
    _s.quick *= 3

SUBS += all_histories(SUBS) + scaled(SUBS)
