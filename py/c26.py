import copy, io, pickle
from concurrent.futures import ThreadPoolExecutor
import joblib
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st
import driver
from driver import Info, Violation
from data import *
from sklearn.base import clone
from sklearn.model_selection import GridSearchCV, KFold, cross_val_predict
from sklearn.multioutput import MultiOutputRegressor
from sklearn.pipeline import make_pipeline
from sklearn.preprocessing import FunctionTransformer
from sparseglm import estimators as E

ID = "C26"
COUNT = (6_000, 400_000)
RULE = ("random history over a pool of Python estimators and datasets: construction (positional, keyword, defaults), set_params, fit, predict, clone, "
        "pickling, copies, fits from threads and inside scikit-learn's pipeline, cross-validation, grid search and multi-output wrapper; after every "
        "step each estimator is compared bitwise with a model holding its parameters and the coefficients of a fresh estimator's fit; "
        "non-trivial = an estimator is fitted again, copied or wrapped after a fit and some coefficient is non-zero")
ASSUMPTIONS = ["fits inside wrappers are compared with direct fits on the same rows", "verbose output is not looked at"]
DEFAULTS = dict(max_iter=50, max_epochs=1000, tol=1e-9, p0=10, use_accel=True, K=5, verbose=True)
ORDER = ["max_iter", "max_epochs", "tol", "p0", "use_accel", "K", "verbose"]


def fixed():
    return []


def extra(name):
    return {"EN": ["l1_ratio"], "MCP": ["gamma"], "L1": []}[PEN[name]]


@st.composite
def params(draw, name, full):
    a = {"alpha": draw(st.sampled_from([0.001, 0.01, 0.05, 0.1, 0.3, 1.0]))}
    if PEN[name] == "EN":
        a["l1_ratio"] = draw(st.sampled_from([0.0, 0.2, 0.5, 1.0]))
    if PEN[name] == "MCP":
        a["gamma"] = draw(st.sampled_from([1.0, 3.0, 50.0]))
    knobs = dict(max_iter=draw(st.sampled_from([0, 1, 2, 3, 10, 50, 101, 200])), max_epochs=draw(st.sampled_from([0, 1, 2, 7, 40, 100, 1000])),
                 tol=draw(st.sampled_from([0.0, 1e-9, 1e-4, 1e-2])), p0=draw(st.integers(1, 12)), use_accel=draw(st.booleans()), K=draw(st.integers(1, 7)))
    keep = draw(st.lists(st.sampled_from(sorted(knobs)), unique=True)) if draw(st.booleans()) else sorted(knobs)
    a.update({k: knobs[k] for k in keep})
    if not full:
        ks = draw(st.lists(st.sampled_from(sorted(a)), min_size=1, unique=True))
        a = {k: a[k] for k in ks}
    return a


@st.composite
def cases(draw):
    multi = draw(st.booleans())
    names = sorted(MULTI if multi else SINGLE)
    data = [draw(problems(multi, max_n=10, max_p=7, max_t=3)) for _ in range(draw(st.integers(1, 3)))]
    slots = [draw(st.sampled_from(names)) for _ in range(draw(st.integers(1, 3)))]
    ops = []
    for s, name in enumerate(slots):
        ops.append(dict(op="new", s=s, args=draw(params(name, True)), positional=draw(st.integers(0, 9))))
    kinds = ["fit", "fit", "fit", "set", "clone", "pickle", "deepcopy", "copy", "joblib", "predict", "new", "threads", "pipeline", "cv", "grid"]
    if not multi:
        kinds.append("multioutput")
    for _ in range(draw(st.integers(1, 8))):
        k = draw(st.sampled_from(kinds))
        s = draw(st.integers(0, len(slots) - 1))
        o = dict(op=k, s=s, d=draw(st.integers(0, len(data) - 1)), sparse=draw(st.booleans()))
        if k == "new":
            o.update(args=draw(params(slots[s], True)), positional=draw(st.integers(0, 9)))
        if k == "set":
            o["args"] = draw(params(slots[s], False))
        ops.append(o)
        if k == "fit" and draw(st.booleans()):
            # other parameters on the very same data
            ops.append(dict(op="set", s=s, d=o["d"], sparse=o["sparse"], args=draw(params(slots[s], False))))
            ops.append(dict(o))
    return dict(multi=multi, slots=slots, data=data, ops=ops)


def make(name, args, positional=0):
    a = dict(args)
    a.setdefault("verbose", False)
    first = ["alpha"] + extra(name) + ORDER
    # as many leading arguments as are given, by position
    pos = []
    for k in first[:positional]:
        if k not in a:
            break
        pos.append(a.pop(k))
    return getattr(E, name)(*pos, **a)


def full(name, args):
    return dict(DEFAULTS, verbose=False, **{k: v for k, v in args.items() if k not in DEFAULTS}, **{}) | args


def check(c):
    multi = c["multi"]
    mats = []
    for pb in c["data"]:
        X, Y = arrays(pb)
        mats.append((X, Y if multi else Y[:, 0]))

    def xy(d, sparse):
        X, y = mats[d]
        return (sp.csc_matrix(X) if sparse else np.asfortranarray(X)), y

    cache = {}

    def fresh(name, p, X, y):
        key = (name, repr(sorted(p.items())), X.toarray().tobytes() if sp.issparse(X) else X.tobytes(order="F"), X.shape, sp.issparse(X), y.tobytes())
        if key not in cache:
            cache[key] = np.array(getattr(E, name)(**p).fit(X, y).coef_)
        return cache[key]

    # what fresh estimators return, computed first and in reverse order
    plan, P = [], {}
    for o in c["ops"]:
        s, name = o["s"], c["slots"][o["s"]]
        if o["op"] == "new":
            P[s] = full(name, o["args"])
        elif o["op"] == "set":
            P[s] = dict(P[s], **o["args"])
        elif o["op"] in ("fit", "threads"):
            plan.append((name, P[s]) + xy(o["d"], o["sparse"]))
    for q in reversed(plan):
        fresh(*q)

    est, par, coef, handed = {}, {}, {}, []
    again = wrapped = False

    def audit(what):
        for s, e in est.items():
            name = c["slots"][s]
            if e.get_params() != par[s]:
                raise Violation("after %s: get_params of estimator %d (%s) is %r, expected %r" % (what, s, name, e.get_params(), par[s]))
            if coef[s] is None:
                if getattr(e, "coef_", None) is not None:
                    raise Violation("after %s: estimator %d has coefficients without a fit" % (what, s))
                try:
                    e.predict(mats[0][0])
                except Exception:
                    continue
                raise Violation("after %s: estimator %d predicts without a fit" % (what, s))
            if not same(e.coef_, coef[s]):
                raise Violation("after %s: coef_ of estimator %d (%s) is not that of a fresh estimator's fit" % (what, s, name))
        for a, b in handed:
            if not same(a, b):
                raise Violation("after %s: an array handed out as coef_ earlier changed" % what)

    for i, o in enumerate(c["ops"]):
        s, k, name = o["s"], o["op"], c["slots"][o["s"]]
        what = "step %d (%s)" % (i, k)
        X, y = xy(o["d"], o["sparse"]) if "d" in o else (None, None)
        sx = snapshot(X), snapshot(y)
        if k == "new":
            est[s], par[s], coef[s] = make(name, o["args"], o["positional"]), full(name, o["args"]), None
        elif k == "set":
            if est[s].set_params(**o["args"]) is not est[s]:
                raise Violation("set_params does not return the estimator")
            par[s] = dict(par[s], **o["args"])
        elif k == "fit":
            again |= coef[s] is not None
            if est[s].fit(X, y) is not est[s]:
                raise Violation("fit does not return the estimator")
            coef[s] = fresh(name, par[s], X, y)
            handed.append((est[s].coef_, coef[s]))
        elif k == "clone":
            old, est[s], coef[s] = est[s], clone(est[s]), None
            if est[s] is old or type(est[s]) is not type(old):
                raise Violation("clone returns no new estimator of the same class")
        elif k in ("pickle", "deepcopy", "copy", "joblib"):
            wrapped |= coef[s] is not None
            if k == "pickle":
                est[s] = pickle.loads(pickle.dumps(est[s]))
            elif k == "deepcopy":
                est[s] = copy.deepcopy(est[s])
            elif k == "copy":
                est[s] = copy.copy(est[s])
            else:
                b = io.BytesIO()
                joblib.dump(est[s], b)
                b.seek(0)
                est[s] = joblib.load(b)
        elif k == "predict":
            if coef[s] is not None and X.shape[1] == coef[s].shape[-1]:
                close(est[s].predict(X), mats[o["d"]][0] @ coef[s].T, "predictions after " + what)
        elif k == "threads":
            es = [clone(est[s]) for _ in range(3)]
            with ThreadPoolExecutor(3) as ex:
                res = [f.result() for f in [ex.submit(e.fit, X, y) for e in es]]
            for r in res:
                if not same(r.coef_, fresh(name, par[s], X, y)):
                    raise Violation("a fit among concurrent ones differs from a fresh estimator's fit")
        elif k == "pipeline":
            wrapped = True
            e = clone(est[s])
            pipe = make_pipeline(FunctionTransformer(lambda A: A * 2.0), e).fit(X, y)
            w = fresh(name, par[s], X * 2.0, y)
            if not same(pipe[-1].coef_, w):
                raise Violation("the fit inside a pipeline differs from the direct one")
            close(pipe.predict(X), (mats[o["d"]][0] * 2.0) @ w.T, "predictions of the pipeline")
        elif k in ("cv", "grid") and y.shape[0] >= 4:
            wrapped = True
            kf = KFold(2)
            A = mats[o["d"]][0]

            def parts(p):
                out = np.zeros_like(y)
                for tr, te in kf.split(A):
                    w = fresh(name, p, np.asfortranarray(A[tr]) if not o["sparse"] else sp.csc_matrix(A)[tr], y[tr])
                    out[te] = A[te] @ w.T
                return out

            if k == "cv":
                close(cross_val_predict(est[s], X, y, cv=kf), parts(par[s]), "cross-validated predictions")
            else:
                grid = [0.01, 0.1, 1.0]
                gs = GridSearchCV(est[s], {"alpha": grid}, scoring="neg_mean_squared_error", cv=kf).fit(X, y)
                sc = []
                for a in grid:
                    pr = parts(dict(par[s], alpha=a))
                    sc.append(np.mean([-np.mean((pr[te] - y[te]) ** 2) for _, te in kf.split(A)]))
                close(gs.cv_results_["mean_test_score"], np.array(sc), "scores of the grid search")
                best = gs.best_params_["alpha"]
                if not same(gs.best_estimator_.coef_, fresh(name, dict(par[s], alpha=best), X, y)):
                    raise Violation("the best estimator of the grid search differs from a direct fit")
        elif k == "multioutput":
            wrapped = True
            Y2 = np.column_stack([y, -y, y * 2.0])
            mo = MultiOutputRegressor(est[s]).fit(X, Y2)
            for e, col in zip(mo.estimators_, Y2.T):
                if not same(e.coef_, fresh(name, par[s], X, np.ascontiguousarray(col))):
                    raise Violation("a fit of the multi-output wrapper differs from the direct one")
        if (snapshot(X), snapshot(y)) != sx:
            raise Violation("%s modified its data" % what)
        audit(what)
    nz = any((w != 0).any() for w in cache.values())
    return Info(nz and (again or wrapped), *sorted({o["op"] for o in c["ops"]}), "refitted" if again else None, *sorted(set(c["slots"])))


def same(a, b):
    return isinstance(a, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b)


def close(a, b, what):
    a = np.asarray(a)
    if a.shape != b.shape or not np.allclose(a, b, rtol=1e-9, atol=1e-9 * (1 + np.abs(b).max(initial=0.0))):
        raise Violation("%s differ from the expected ones" % what)


if __name__ == "__main__":
    import sys
    driver.main(sys.modules["__main__"])
