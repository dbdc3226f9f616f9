import math
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st
import driver
from driver import Info, Violation
from data import *
from sparseglm import estimators as E
from sparseglm.utils import compute_alpha_max, make_correlated_data, sum_squared

ID = "C20"
COUNT = (24_000, 1_000_000)
RULE = ("one of four jobs: make_correlated_data with every argument drawn (sizes 1 to 60, tasks 1 to 4, correlation, signal-to-noise ratio, density "
        "on and off the representable grid, given coefficients, kind of random state, out-of-range values); the same with many samples for the "
        "moments of X, of the coefficients, of the noise and of the support; compute_alpha_max on every container with fits on both sides; sum_squared on "
        "every layout, dimension and type; non-trivial = the call succeeds with some non-zero output")
ASSUMPTIONS = [
    "moments are compared at seven standard deviations over at least 4000 independent draws",
    "the number of non-zero coefficients may be either neighbour when density times n_features is within 1e-9 of an integer",
    "signal-to-noise ratios are positive; arrays of coefficients match n_features and n_tasks",
]


def fixed():
    return []


seeds = st.integers(0, 2**32 - 1)
CORR = st.one_of(st.sampled_from([0, 0.0, 0.5, 0.6, 0.99, 1e-3]), st.floats(0, 0.999, allow_subnormal=False))
BADCORR = st.sampled_from([1.0, 1, -1e-12, -0.5, 1.0000001, 2.0, -1.0, 40.0])
DENS = st.one_of(st.sampled_from([1, 1.0, 0.5, 0.2, 0.1, 0.05, 1 / 3]), st.floats(0.001, 1.0))
BADDENS = st.sampled_from([0, 0.0, -0.2, 1.0000001, 2, 1.5, -1e-12])
SNR = st.one_of(st.sampled_from([3, 1, 0.5, 10.0, 100, 1e4, 1e7, 1e9, "inf", "inf"]), st.floats(0.05, 1e3))


@st.composite
def cases(draw):
    job = draw(st.sampled_from(["make"] * 6 + ["alpha"] * 3 + ["sq"] * 3 + ["moments"]))
    if job == "make":
        n, p, t = draw(st.integers(1, 60)), draw(st.integers(1, 60)), draw(st.integers(1, 4))
        bad = draw(st.sampled_from([None, None, None, None, None, "corr", "density", "both"]))
        w = draw(st.sampled_from([None, None, "1d", "2d", "int", "zero", "F"]))
        if w == "1d" and t > 1:
            w = "2d"
        return dict(job=job, n=n, p=p, t=t, corr=draw(BADCORR if bad in ("corr", "both") else CORR), snr=draw(SNR),
                    density=draw(BADDENS if bad in ("density", "both") else DENS), w=w, wseed=draw(st.integers(0, 999)), bad=bad,
                    seed=draw(seeds), state=draw(st.sampled_from(["int", "int", "RandomState", "global", "shared"])),
                    defaults=draw(st.integers(0, 63)))
    if job == "moments":
        return dict(job=job, n=4000, p=draw(st.integers(1, 7)), t=draw(st.integers(1, 3)), corr=draw(CORR), snr=draw(st.sampled_from([0.1, 1.0, 5.0])),
                    seed=draw(seeds), what=draw(st.sampled_from(["X", "noise", "w", "support"])))
    if job == "alpha":
        multi = draw(st.booleans())
        pb = draw(problems(multi, max_n=10, max_p=8, max_t=3))
        return dict(job=job, multi=multi, pb=pb, xf=draw(st.sampled_from([f for f in forms(pb["kind"], XFORMS) if f != "list"])),
                    yf=draw(st.sampled_from([f for f in forms(pb["ykind"], YFORMS) if f != "list"])), seed=draw(st.integers(0, 99)))
    return dict(job=job, shape=draw(st.lists(st.integers(0, 9), min_size=1, max_size=3)), seed=draw(seeds), dtype=draw(st.sampled_from(["f8", "f8", "f4", "i8"])),
                form=draw(st.sampled_from(["C", "F", "strided", "reversed", "inner", "readonly", "T", "broadcast", "swap"])))


def close(a, b, rel, what):
    if not abs(a - b) <= rel * max(abs(a), abs(b)):
        raise Violation("%s: %r, expected %r" % (what, a, b))


def number_ok(k, density, p):
    x = density * p
    return k == math.floor(x) or (abs(x - round(x)) < 1e-9 and k in (round(x), round(x) - 1))


NAMES_ARGS = ["n_samples", "n_features", "n_tasks", "corr", "snr", "density"]
DEF = dict(n_samples=100, n_features=50, n_tasks=1, corr=0.6, snr=3, density=0.2)


def make(c):
    kw = dict(n_samples=c["n"], n_features=c["p"], n_tasks=c["t"], corr=c["corr"], snr=np.inf if c["snr"] == "inf" else c["snr"], density=c["density"])
    for i, k in enumerate(NAMES_ARGS):
        # some arguments left at their documented defaults
        if c["defaults"] % 7 == 3 and (c["defaults"] >> i) & 1 and not (c["bad"] and k in ("corr", "density")) and not (c["w"] and k in ("n_features", "n_tasks")):
            del kw[k]
    full = dict(DEF, **kw)
    n, p, t, snr = full["n_samples"], full["n_features"], full["n_tasks"], full["snr"]
    w = None
    if c["w"]:
        r = np.random.default_rng(c["wseed"])
        w = r.standard_normal((p, t)) * (r.random((p, t)) < 0.6)
        if c["w"] == "1d" or (c["w"] in ("int", "zero") and t == 1 and c["wseed"] % 2):
            w = w[:, 0].copy()
        if c["w"] == "int":
            w = np.rint(2 * w).astype(int)
        elif c["w"] == "zero":
            w = np.zeros_like(w)
        elif c["w"] == "F":
            w = np.asfortranarray(w)
        kw["w_true"] = w
    wcopy = None if w is None else w.copy()
    desc = "make_correlated_data(%s)" % ", ".join("%s=%r" % kv for kv in kw.items() if kv[0] != "w_true")

    def call(state=None):
        if state is None:
            np.random.seed(c["seed"])
            return make_correlated_data(**kw)
        return make_correlated_data(**kw, random_state=state)

    before = np.random.get_state()
    try:
        if c["state"] == "int":
            out = call(c["seed"])
        elif c["state"] in ("RandomState", "shared"):
            out = call(np.random.RandomState(c["seed"]))
        else:
            out = call()
    except ValueError as e:
        if c["bad"]:
            return Info(True, "make", "rejected " + c["bad"])
        raise Violation("%s raises ValueError: %s" % (desc, e))
    if c["bad"]:
        raise Violation("%s is accepted" % desc)
    if c["state"] != "global":
        after = np.random.get_state()
        if before[2] != after[2] or not (before[1] == after[1]).all():
            raise Violation("%s draws from the global random state although one is given" % desc)
    if not (isinstance(out, tuple) and len(out) == 3):
        raise Violation("%s returns %r" % (desc, type(out)))
    X, y, wt = out
    wantY, wantW = ((n,), (p,)) if t == 1 else ((n, t), (p, t))
    if X.shape != (n, p) or y.shape != wantY or wt.shape != wantW:
        raise Violation("%s: shapes %s %s %s" % (desc, X.shape, y.shape, wt.shape))
    if not (np.isfinite(X).all() and np.isfinite(y).all() and np.isfinite(wt).all()):
        raise Violation("%s: non-finite output" % desc)
    if X.dtype != np.float64 or y.dtype != np.float64:
        raise Violation("%s: dtypes %s %s" % (desc, X.dtype, y.dtype))
    if w is not None:
        if not (w == wcopy).all():
            raise Violation("%s modifies w_true" % desc)
        if not (wt.reshape(p, t) == w.reshape(p, t)).all():
            raise Violation("%s: the given coefficients are not returned" % desc)
    else:
        rows = (wt.reshape(p, t) != 0)
        if not (rows.all(axis=1) == rows.any(axis=1)).all():
            raise Violation("%s: tasks have different supports" % desc)
        if not number_ok(int(rows.any(axis=1).sum()), full["density"], p):
            raise Violation("%s: %d non-zero coefficients" % (desc, rows.any(axis=1).sum()))
    S = (X @ wt).reshape(n, t)
    R = y.reshape(n, t) - S
    nS, nR = float(np.sqrt((S * S).sum())), float(np.sqrt((R * R).sum()))
    scale = float(np.sqrt(((np.abs(X) @ np.abs(wt.reshape(p, t))) ** 2).sum()))
    if snr == np.inf or nS == 0:
        if nR > 1e-12 * (scale + 1e-300):
            raise Violation("%s: noise of norm %g although none is due" % (desc, nR))
    elif nS > 1e-9 * scale:
        if not abs(nR - nS / snr) <= 1e-9 * nS / snr + 1e-13 * scale:
            raise Violation("%s: signal-to-noise ratio %r" % (desc, nS / nR if nR else np.inf))
        if nR > 0 and n * t > 3 and snr < 1e6 and np.abs(np.diff(R.ravel())).max() < 1e-9 * nR:
            raise Violation("%s: constant noise" % desc)
    # reproducible, and the kinds of random state are equivalent
    again = call(c["seed"]) if c["state"] != "int" else call(np.random.RandomState(c["seed"]))
    if c["defaults"] % 2:
        again = call(c["seed"])
    for a, b, name in zip(out, again, ("X", "y", "w_true")):
        if not np.array_equal(a, b):
            raise Violation("%s: %s not reproducible (random state as %s)" % (desc, name, c["state"]))
    if c["state"] == "shared":
        rs = np.random.RandomState(c["seed"])
        one, two = call(rs), call(rs)
        if not np.array_equal(one[0], X) or np.array_equal(two[0], X):
            raise Violation("%s: a shared RandomState does not advance" % desc)
    other = call((c["seed"] + 1) % 2**32)
    if np.array_equal(other[0], X):
        raise Violation("%s: another seed gives the same design" % desc)
    return Info(nS > 0, "make", "make " + ("given w" if w is not None else "drawn w"), "state " + c["state"], "tasks 1" if t == 1 else "tasks > 1",
                "no noise" if snr == np.inf else None, "uncorrelated" if full["corr"] == 0 else None, "nothing selected" if nS == 0 else None,
                "left defaults" if len(kw) - ("w_true" in kw) < 6 else None, "density near grid" if abs(full["density"] * p - round(full["density"] * p)) < 1e-9 else None)


def moments(c):
    n, p, t, rho = c["n"], c["p"], c["t"], c["corr"]
    desc = "moments of make_correlated_data(n_tasks=%d, corr=%r, seed %d): " % (t, rho, c["seed"])

    def sd(x, mean, var, what):
        x = np.asarray(x, dtype=float).ravel()
        z = (x.mean() - mean) / np.sqrt(var / x.size)
        if not abs(z) < 7:
            raise Violation(desc + "%s is %g, expected %g (%g standard deviations away)" % (what, x.mean(), mean, z))

    if c["what"] == "X":
        X, _, _ = make_correlated_data(n, p, t, corr=rho, random_state=c["seed"])
        for i in range(p):
            sd(X[:, i], 0, 1, "mean of feature %d" % i)
            for j in range(i, p):
                r = float(rho) ** (j - i)
                sd(X[:, i] * X[:, j], r, 1 + r * r, "E[x_%d x_%d]" % (i, j))
            # Gaussian: fourth moment 3, its square has variance 96
            sd(X[:, i] ** 4, 3, 96, "fourth moment of feature %d" % i)
        # independent samples
        sd(X[1:, 0] * X[:-1, 0], 0, 1, "correlation of successive samples")
    elif c["what"] == "noise":
        w = np.random.RandomState(c["seed"] % 1000).randn(p, t)
        X, y, wt = make_correlated_data(n, p, t, corr=rho, snr=c["snr"], w_true=w, random_state=c["seed"])
        S = (X @ w).reshape(n, t)
        R = y.reshape(n, t) - S
        R = R / np.sqrt((R * R).mean())
        sd(R, 0, 1, "mean of the noise")
        for k in range(t):
            sd(R[:, k] ** 2, 1, 2, "variance of the noise of task %d" % k)
            for j in range(p):
                sd(R[:, k] * X[:, j], 0, 1, "noise and feature %d" % j)
            if k:
                sd(R[:, k] * R[:, 0], 0, 1, "noise of tasks 0 and %d" % k)
    elif c["what"] == "w":
        _, _, wt = make_correlated_data(2, 4000, t, corr=0, density=1.0, random_state=c["seed"])
        wt = wt.reshape(4000, t)
        for k in range(t):
            sd(wt[:, k], 0, 1, "mean of the coefficients")
            sd(wt[:, k] ** 2, 1, 2, "variance of the coefficients")
            if k:
                sd(wt[:, k] * wt[:, 0], 0, 1, "coefficients of tasks 0 and %d" % k)
    else:
        q = 40
        hits = np.zeros(q)
        rs = np.random.RandomState(c["seed"])
        m = 400
        for _ in range(m):
            _, _, wt = make_correlated_data(1, q, t, corr=0, density=0.25, random_state=rs)
            hits += (wt.reshape(q, t) != 0).any(axis=1)
        for j in range(q):
            if abs(hits[j] - m * 0.25) > 7 * np.sqrt(m * 0.25 * 0.75):
                raise Violation(desc + "coefficient %d is selected %d times in %d" % (j, hits[j], m))
    return Info(True, "moments", "moments of " + c["what"])


def alpha(c):
    pb = c["pb"]
    X, Y = arrays(pb)
    y = Y if c["multi"] else Y[:, 0]
    xc, yc = put(X, c["xf"], c["seed"]), put(y, c["yf"], c["seed"])
    before = snapshot(xc), snapshot(yc)
    got = float(compute_alpha_max(xc, yc))
    want = alpha_max(pb)
    G = (np.abs(X).T @ np.abs(Y)) / pb["n"]
    size = float(np.sqrt((G * G).sum(axis=1)).max(initial=0.0))
    single = np.result_type(xc.dtype, yc.dtype) != np.float64 and "f32" in c["xf"] + c["yf"]
    eps = (1e-5 if single else 1e-13) * size
    desc = "compute_alpha_max(%s %dx%d, %s %s)" % (c["xf"], pb["n"], pb["p"], c["yf"], y.shape)
    if not abs(got - want) <= eps:
        raise Violation("%s = %r, expected %r" % (desc, got, want))
    if (snapshot(xc), snapshot(yc)) != before:
        raise Violation("%s modifies its arguments" % desc)
    if want == 0 or single:
        return Info(False, "alpha", "zero" if want == 0 else "single precision")
    cls = E.MultiTaskLasso if c["multi"] else E.Lasso
    # integers over a power of two: everything is exact
    exact = pb["kind"] == 2 and pb["ykind"] == 2 and not c["multi"] and pb["n"] & (pb["n"] - 1) == 0
    for fac, null in ((1.0 if exact else 1 + 1e-11 + 2 * eps / want, True), (2.0, True), (0.97, False)):
        a = got * fac
        est = cls(alpha=a, tol=a * 1e-6, max_iter=50, max_epochs=1000)
        est.fit(xc, yc)
        if null and (est.coef_ != 0).any():
            raise Violation("%s: %s(alpha=%r), %g times it, has non-zero coefficients" % (desc, cls.__name__, a, fac))
        if not null and not (est.coef_ != 0).any() and want * 0.03 > 1e-6 * a + 2 * eps:
            raise Violation("%s: %s(alpha=%r), below it, has no non-zero coefficient" % (desc, cls.__name__, a))
    return Info(True, "alpha", "alpha " + c["xf"], "alpha multi-task" if c["multi"] else "alpha single-task", "alpha exact" if exact else None)


def squares(c):
    r = np.random.default_rng(c["seed"])
    a = r.standard_normal(c["shape"]) * 10.0 ** r.integers(-3, 4)
    if c["dtype"] == "i8":
        a = np.rint(5 * r.standard_normal(c["shape"]) * 10.0 ** r.choice([0, 0, 3, 6])).astype(np.int64)
    elif c["dtype"] == "f4":
        a = a.astype(np.float32)
    f = c["form"]
    if f == "T":
        x = np.ascontiguousarray(a).T
    elif f == "swap":
        x = np.swapaxes(np.ascontiguousarray(a), 0, a.ndim - 1)
    elif f == "broadcast":
        x = np.broadcast_to(a, (3,) + a.shape)
    else:
        x = put(a, f).astype(a.dtype, copy=False) if f not in ("strided", "reversed", "inner") else None
        if x is None:
            big = np.full([2 * s + 3 for s in a.shape], 77, dtype=a.dtype)
            sl = tuple({"strided": slice(0, 2 * s, 2), "inner": slice(1, s + 1), "reversed": slice(s, 0, -1)}[f] for s in a.shape)
            x = big[sl]
            x[...] = a
    keep = x.copy()
    got = float(sum_squared(x))
    want = math.fsum(float(v) * float(v) for v in keep.ravel())
    if not abs(got - want) <= (1e-4 if c["dtype"] == "f4" else 1e-12) * want:
        raise Violation("sum_squared of a %s array of shape %s = %r, expected %r" % (f, x.shape, got, want))
    if not (x == keep).all():
        raise Violation("sum_squared modifies its argument")
    return Info(want > 0, "sum_squared", "layout " + f, "dimensions %d" % x.ndim)


def check(c):
    return {"make": make, "moments": moments, "alpha": alpha, "sq": squares}[c["job"]](c)


if __name__ == "__main__":
    import sys
    driver.main(sys.modules["__main__"])
