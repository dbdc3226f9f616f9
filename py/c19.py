import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st
import driver
from driver import Info, Violation
from data import *
from sparseglm import estimators as E

ID = "C19"
COUNT = (24_000, 1_000_000)
RULE = ("estimator, every hyperparameter drawn from valid and invalid values (given to the constructor, or through set_params to a new or a fitted estimator), and a dataset "
        "with or without one defect (lengths, dimensions, non-finite entries); a model of the rules says whether ValueError is due; "
        "non-trivial = at most two of the ingredients are invalid")
ASSUMPTIONS = ["NaN hyperparameters and NumPy scalars as integers are not covered",
               "one target column given as a matrix to a single-task estimator may be rejected with ValueError or fitted like the vector"]

# encoded values (JSON has no infinity, no NumPy scalars)
VALID = {
    "alpha": [0.0, 1e-3, 0.25, 0.999, 1.0, 1.5, 40.0, "np.float64:0.5", "np.float64:3.0"],
    "gamma": [1.0, 1.0000001, 1.5, 3.0, 1e6, "inf", "np.float64:2.0"],
    "l1_ratio": [0.0, 1e-6, 0.3, 0.5, 0.999, 1.0, "np.float64:0.5"],
    "tol": [0.0, 1e-12, 1e-9, 1e-3, 1.0, 1e3],
    "K": [1, 2, 3, 5, 17, 40],
    "p0": [1, 2, 7, 10, 100, 1000, 10**6],
    "max_iter": [0, 1, 2, 50, 101, 300],
    "max_epochs": [0, 1, 2, 200, 1000],
}
INVALID = {
    "alpha": [-1e-12, -0.5, -1.0, "-inf", 1, 0, 2, "str:0.1", "none", "list", "bool", "np.float64:-0.5"],
    "gamma": [0.999999, 0.5, 0.0, -1.0, "-inf", 3, 0, "str:3", "none", "list", "np.float64:0.5"],
    "l1_ratio": [-1e-9, -0.5, 1.0000001, 1.5, 40.0, "inf", "-inf", 1, 0, 2, "str:0.5", "none", "np.float64:1.5"],
    "tol": [-1e-12, -1.0, "-inf", 1, "str:1e-3", "none"],
    "K": [0, -1, -5, 2.0, 2.5, "str:5", "none"],
    "p0": [0, -1, -10, 2.0, 10.5, "str:5", "none"],
    "max_iter": [-1, -50, 1.5, 50.0, "str:5", "none"],
    "max_epochs": [-1, -3, 1.5, 50.0, "str:5", "none"],
}
DEFECTS_1 = ["short", "long", "X1d", "X3d", "nanX", "infX", "nany", "-infy", "y2d", "y3d", "empty", "nofeat", "ycol"]
DEFECTS_2 = ["short", "long", "X1d", "X3d", "nanX", "infX", "nany", "-infy", "y1d", "y3d", "empty", "nofeat"]


def decode(v):
    if v == "none":
        return None
    if v == "list":
        return [0.5]
    if v == "bool":
        return True
    if isinstance(v, str):
        if v.startswith("str:"):
            return v[4:]
        if v.startswith("np.float64:"):
            return np.float64(v[11:])
        return float(v)
    return v


def fixed():
    return []


def hyper(name):
    extra = {"EN": ["l1_ratio"], "MCP": ["gamma"], "L1": []}[PEN[name]]
    return ["alpha"] + extra + ["max_iter", "max_epochs", "tol", "p0", "K"]


@st.composite
def cases(draw):
    name = draw(st.sampled_from(NAMES))
    multi = name in MULTI
    pb = draw(problems(multi, max_n=8, max_p=7, max_t=3))
    nbad = draw(st.sampled_from([0, 0, 1, 1, 1, 2]))
    hs = hyper(name)
    bad = draw(st.permutations(hs))[:nbad]
    params = {h: draw(st.sampled_from(INVALID[h] if h in bad else VALID[h])) for h in hs}
    how = "init"
    if nbad:
        how = draw(st.sampled_from(["init", "init", "set_params", "set_params", "set_params on a fitted estimator", "attributes of a fitted estimator"]))
    defaults = [h for h in hs if h not in bad and h not in ("alpha", "gamma", "l1_ratio") and draw(st.booleans())]
    for h in defaults:
        del params[h]
    defect = draw(st.sampled_from(DEFECTS_2 if multi else DEFECTS_1)) if draw(st.integers(0, 2)) == 0 else None
    return dict(name=name, pb=pb, params=params, bad=list(bad), how=how, defect=defect, sparse=draw(st.booleans()),
                use_accel=draw(st.booleans()), pos=draw(st.integers(0, 1000)))


def dataset(c):
    pb = c["pb"]
    X, Y = arrays(pb)
    multi = c["name"] in MULTI
    # keep gamma times the Lipschitz constants above one: columns of squared norm 2 n
    nrm = np.sqrt((X * X).sum(axis=0) / (2.0 * pb["n"]))
    X = X / np.where(nrm > 0, nrm, 1.0)
    y = Y if multi else Y[:, 0]
    d = c["defect"]
    sparse = c["sparse"]
    i = c["pos"] % pb["n"]
    j = c["pos"] % pb["p"]
    if d == "short":
        y = y[:-1] if pb["n"] > 1 else np.concatenate([y, y, y])
    elif d == "long":
        y = np.concatenate([y, y[:1 + c["pos"] % pb["n"]]])
    elif d == "X1d":
        return X[:, 0], y
    elif d == "X3d":
        return np.stack([X, X]), y
    elif d == "nanX":
        X = X.copy()
        X[i, j] = np.nan
    elif d == "infX":
        X = X.copy()
        X[i, j] = [np.inf, -np.inf][c["pos"] % 2]
    elif d in ("nany", "-infy"):
        y = y.copy()
        y.flat[c["pos"] % y.size] = np.nan if d == "nany" else -np.inf
    elif d == "y2d":
        y = np.stack([y, 2 * y], axis=1)
    elif d == "y3d":
        y = np.zeros((pb["n"], 2, 2))
    elif d == "ycol":
        y = y[:, None]
    elif d == "y1d":
        y = y[:, 0].copy()
    elif d == "empty":
        X, y = X[:0], y[:0]
        sparse = False
    elif d == "nofeat":
        X = X[:, :0]
        sparse = False
    return (sp.csc_matrix(X) if sparse else X), y


def check(c):
    name = c["name"]
    params = {k: decode(v) for k, v in c["params"].items()}
    kw = dict(use_accel=c["use_accel"], verbose=False)
    bad = list(c["bad"])
    desc = "%s(%s)%s" % (name, ", ".join("%s=%r" % kv for kv in params.items()), " data defect " + c["defect"] if c["defect"] else "")
    X, y = dataset(c)
    must = bool(bad) or c["defect"] not in (None, "ycol")
    stage = "construction"
    try:
        if c["how"] == "init":
            est = getattr(E, name)(**params, **kw)
        else:
            ok = {h: decode(VALID[h][0]) if h in bad else params[h] for h in params}
            est = getattr(E, name)(**ok, **kw)
            if "fitted" in c["how"]:
                est.fit(*dataset(dict(c, defect=None)))
            for h in bad:
                if "attributes" in c["how"]:
                    setattr(est, h, params[h])
                else:
                    est.set_params(**{h: params[h]})
        stage = "fit"
        est.fit(X, y)
    except ValueError as e:
        if c["defect"] == "ycol" and not bad and stage == "fit":
            return Info(False, name, "data: ycol", "rejected")
        if not must:
            raise Violation("%s: valid, but %s raises ValueError: %s" % (desc, stage, e))
        if stage == "construction" and not bad:
            raise Violation("%s: the hyperparameters are valid, but construction raises ValueError: %s" % (desc, e))
    except Exception as e:
        raise Violation("%s: %s raises %s instead of %s: %s" % (desc, stage, type(e).__name__, "ValueError" if must else "succeeding", e))
    else:
        if must:
            raise Violation("%s: accepted (%s)" % (desc, "invalid " + ", ".join(bad) if bad else "inconsistent data"))
        t = c["pb"]["t"]
        want = (t, c["pb"]["p"]) if name in MULTI else (c["pb"]["p"],)
        if c["defect"] == "ycol":
            direct = getattr(E, name)(**params, **kw).fit(X, y[:, 0]).coef_
            if est.coef_.size != direct.size or np.abs(np.ravel(est.coef_) - direct).max(initial=0.0) > 1e-6 * np.abs(direct).max(initial=0.0):
                raise Violation("%s: one target column as a matrix gives coefficients %r, as a vector %r" % (desc, est.coef_, direct))
            return Info(False, name, "data: ycol", "fitted")
        if est.coef_.shape != want or not np.isfinite(est.coef_).all():
            raise Violation("%s: coefficients %r" % (desc, est.coef_))
    return Info(len(bad) + (c["defect"] is not None) <= 2, name, "how: " + c["how"] if bad else None,
                "valid" if not must else "invalid", *["bad " + h for h in bad], "data: " + (c["defect"] or "fine"))


if __name__ == "__main__":
    import sys
    driver.main(sys.modules["__main__"])
