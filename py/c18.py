import os, sys, tempfile
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st
import driver
from driver import Info, Violation
from data import *
from sklearn.base import clone
from sparseglm import estimators as E

ID = "C18"
COUNT = (16_000, 1_000_000)
RULE = ("random dataset (values real, single-precision or integer), estimator, hyperparameters, solver knobs, container of X and y "
        "(layouts, strides, dtypes, lists, scipy formats); one fit with a tiny or a generous budget, optionally after an earlier fit on "
        "other data, through clone or after set_params; compared with the core library called from Rust, predictions with NumPy; "
        "non-trivial = some non-zero coefficient")
ASSUMPTIONS = [
    "the core library's fits on a row-major and a column-major copy must agree for the bitwise-path comparison",
    "optimality is demanded when plain coordinate descent converges within 1000 epochs",
    "scipy matrices in canonical form up to the order of rows and explicit zeros, 32-bit indices",
]


def fixed():
    return []


@st.composite
def cases(draw):
    name = draw(st.sampled_from(NAMES))
    multi = name in MULTI
    pb = draw(problems(multi))
    X, _ = arrays(pb)
    am = alpha_max(pb) or 1.0
    frac = draw(st.sampled_from([0.0, 0.01, 0.05, 0.2, 0.5, 0.9, 1.1]))
    ratio = draw(st.sampled_from([0.0, 0.1, 0.5, 0.9, 1.0]))
    L = (X * X).sum(axis=0) / pb["n"]
    lmin = float(L[L > 0].min()) if (L > 0).any() else 1.0
    gamma = max(1.0, 1 / lmin) * draw(st.sampled_from([1.25, 2.0, 10.0]))
    if draw(st.integers(0, 7)) == 0:
        gamma = float("inf")
    if draw(st.integers(0, 29)) == 0:
        gamma = max(gamma, draw(near_floats(1.0, 1e6)))
        ratio = draw(near_floats(0.0, 1.0))
    if frac == 0.0 and gamma == float("inf"):
        gamma = max(1.0, 1 / lmin) * 2
    tight = draw(st.booleans())
    if tight:
        budget = dict(max_iter=draw(st.integers(0, 4)), max_epochs=draw(st.integers(0, 12)), tol=draw(st.sampled_from([0.0, 1e-12, 1e-3, 1e-1, 1.0])))
    else:
        budget = dict(max_iter=100, max_epochs=3000, tol=am * draw(st.sampled_from([1e-4, 1e-6, 1e-8])))
    far = draw(st.integers(0, 19))
    if far == 0:
        # large budgets that the tolerance cuts short, or a short part of one
        budget = dict(max_iter=draw(st.one_of(st.sampled_from([51, 101, 128, 150, 200, 257, 500, 1001]), near_ints(5, 1000))),
                      max_epochs=draw(st.one_of(st.integers(1, 30), near_ints(5, 30))), tol=am * draw(st.sampled_from([0.5, 1e-1, 1e-2, 1e-3])))
        tight = True
    elif far == 1:
        budget = dict(max_iter=draw(st.integers(1, 3)), max_epochs=draw(st.one_of(st.sampled_from([100, 1001, 4096, 10000]), near_ints(5, 2000))),
                      tol=am * draw(st.sampled_from([0.5, 1e-1, 1e-2, 1e-3])))
        tight = True
    if draw(st.integers(0, 29)) == 0:
        frac = draw(near_floats(1e-3, 20.0)) / am
    small = draw(st.integers(0, 19)) > 0
    knobs = dict(budget, p0=draw(st.integers(1, 14) if small else st.one_of(st.integers(10, 300), near_ints(1, 300))),
                 K=draw(st.integers(1, 8) if small else st.one_of(st.integers(5, 30), near_ints(1, 30))), use_accel=draw(st.booleans()), verbose=draw(st.integers(0, 9)) == 0)
    xf = draw(st.sampled_from(forms(pb["kind"], XFORMS)))
    yf = draw(st.sampled_from(forms(pb["ykind"], YFORMS)))
    history = draw(st.sampled_from(["fresh", "fresh", "refit", "clone", "set_params", "failed"]))
    prev = draw(problems(multi)) if history == "refit" else None
    pf = draw(st.sampled_from(forms(pb["kind"], XFORMS)))
    return dict(name=name, pb=pb, alpha=am * frac, ratio=ratio, gamma=gamma if gamma != float("inf") else "inf", knobs=knobs, tight=tight,
                xf=xf, yf=yf, seed=draw(st.integers(0, 99)), history=history, prev=prev, pf=pf)


def build(c, **kw):
    args = dict(c["knobs"])
    args.update(kw)
    pen = PEN[c["name"]]
    a = {"alpha": c["alpha"]}
    if pen == "EN":
        a["l1_ratio"] = c["ratio"]
    if pen == "MCP":
        a["gamma"] = float(c["gamma"])
    a.update(args)
    return getattr(E, c["name"])(**a)


def captured(f):
    """The result of f and what reached the standard output meanwhile, whoever wrote it."""
    sys.stdout.flush()
    with tempfile.TemporaryFile() as tmp:
        keep = os.dup(1)
        os.dup2(tmp.fileno(), 1)
        try:
            r = f()
            sys.stdout.flush()
        finally:
            os.dup2(keep, 1)
            os.close(keep)
        tmp.seek(0)
        return r, tmp.read().decode(errors="replace")


def targets(c, pb):
    _, Y = arrays(pb)
    return Y if c["name"] in MULTI else Y[:, 0]


def check(c):
    name, pb, k = c["name"], c["pb"], c["knobs"]
    multi, pen = name in MULTI, PEN[c["name"]]
    X, Y = arrays(pb)
    x = put(X, c["xf"], c["seed"])
    y = put(targets(c, pb), c["yf"], c["seed"])
    h = c["history"]
    if h == "set_params":
        est = build(c, tol=0.5, max_iter=1, p0=3, K=2)
        est.set_params(alpha=c["alpha"], tol=k["tol"], max_iter=k["max_iter"], p0=k["p0"], K=k["K"])
    else:
        est = build(c)
    if h == "clone":
        est = clone(est)
    try:
        est.predict(X)
    except Exception:
        pass
    else:
        raise Violation("predict before fit does not raise")
    if h == "refit":
        px, _ = arrays(c["prev"])
        est.fit(px, targets(c, c["prev"]))
    if h == "failed":
        try:
            est.fit(X, targets(c, pb)[:-1])
        except ValueError:
            pass
    params = est.get_params()
    sx, sy = snapshot(x), snapshot(y)
    got, text = captured(lambda: est.fit(x, y))
    if got is not est:
        raise Violation("fit does not return the estimator")
    if bool(text) != (k["verbose"] and k["max_iter"] > 0):
        raise Violation("verbose=%s with max_iter=%d: %s" % (k["verbose"], k["max_iter"], "fit prints %r" % text[:200] if text else "fit prints nothing"))
    if snapshot(x) != sx or snapshot(y) != sy:
        raise Violation("fit modified its input (X as %s, y as %s)" % (c["xf"], c["yf"]))
    if est.get_params() != params:
        raise Violation("fit changed the hyperparameters")
    coef = est.coef_
    want_shape = (pb["t"], pb["p"]) if multi else (pb["p"],)
    if not isinstance(coef, np.ndarray) or coef.shape != want_shape or coef.dtype != np.float64:
        raise Violation("coef_ is %s of shape %s, expected float64 array of shape %s" % (type(coef).__name__, getattr(coef, "shape", None), want_shape))
    if not np.isfinite(coef).all():
        raise Violation("non-finite coefficients")
    W = coef.T.reshape(pb["p"], pb["t"])
    req = dict(model=dict(pen=pen, alpha=c["alpha"], ratio=c["ratio"], gamma=c["gamma"], logistic=False, multi=multi),
               knobs=dict(ws=k["p0"], k=k["K"], accel=k["use_accel"], max_iter=k["max_iter"], max_epochs=k["max_epochs"], tol=k["tol"]),
               pb=dict(n=pb["n"], p=pb["p"], t=pb["t"], x=X.ravel().tolist(), y=Y.ravel().tolist()), easy=not c["tight"], w=None)
    rep = core(req)
    labels = ["history: " + h, "X: " + c["xf"], "y: " + c["yf"], name]
    compared = False
    if all("Err" in r for r in rep["w"]):
        raise Violation("the core library fails on this fit: %s" % rep["w"][0]["Err"])
    if all("Ok" in r for r in rep["w"]):
        ws = [np.array(r["Ok"]).reshape(pb["p"], pb["t"]) for r in rep["w"]]
        f = ws[2] if c["xf"] in SPARSE_X else ws[0]
        sc = np.abs(f).max(initial=0.0)
        # where rounding decides (adoption of an extrapolated point), layouts disagree and nothing is demanded
        stable = all(np.abs(f - g).max(initial=0.0) <= 1e-11 * sc and np.array_equal(f != 0, g != 0) for g in ws)
        if stable and not (c["xf"] == "csc_unsorted" and k["use_accel"]):
            compared = True
            d = np.abs(W - f).max(initial=0.0)
            if not d <= 1e-9 * sc:
                raise Violation("coef_ differs from the core library's coefficients by %g (largest coefficient %g)" % (d, sc))
    judged = False
    if not c["tight"] and rep["easy"]:
        v = violations(pb, pen, c["alpha"], c["ratio"], float(c["gamma"]), W)
        sl = slack(pb, c["alpha"], W)
        judged = True
        if not v.max(initial=0.0) <= k["tol"] * (1 + 1e-6) + sl:
            if core(dict(req, easy=False, w=W.ravel().tolist()))["exhausted"]:
                judged = False
            else:
                raise Violation("optimality violation %g exceeds the tolerance %g" % (v.max(), k["tol"]))
    # predictions
    rng = np.random.default_rng(c["seed"])
    Xn = {0: rng.standard_normal((3, pb["p"])), 1: rng.standard_normal((3, pb["p"])).astype(np.float32).astype(float),
          2: np.rint(3 * rng.standard_normal((3, pb["p"])))}[pb["kind"]]
    for A, form in ((X, c["xf"]), (Xn, c["pf"])):
        a = put(A, form, c["seed"])
        s = snapshot(a)
        pr = est.predict(a)
        if snapshot(a) != s:
            raise Violation("predict modified its input")
        want = A @ W
        want = want if multi else want[:, 0]
        if sp.issparse(pr):
            pr = pr.toarray()
        pr = np.asarray(pr)
        if pr.shape != want.shape:
            raise Violation("predictions have shape %s, expected %s" % (pr.shape, want.shape))
        terms = np.abs(A) @ np.abs(W)
        if not (np.abs(pr - want) <= 1e-13 * (4 + pb["p"]) * (terms if multi else terms[:, 0])).all():
            raise Violation("predictions differ from X times the coefficients by %g" % np.abs(pr - want).max())
    return Info((W != 0).any() and (compared or judged), "compared with the core library" if compared else "not compared",
                "optimality judged" if judged else None, "tiny budget" if c["tight"] else "generous budget", *labels)


if __name__ == "__main__":
    driver.main(sys.modules["__main__"])
