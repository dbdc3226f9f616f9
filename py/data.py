"""Problems, containers and the core service shared by the Python checks."""
import json, os, re, subprocess
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

SINGLE = {"Lasso": "L1", "ElasticNet": "EN", "MCPRegressor": "MCP"}
MULTI = {"MultiTaskLasso": "L1", "MultiTaskElasticNet": "EN", "BlockMCPRegressor": "MCP"}
PEN = {**SINGLE, **MULTI}
NAMES = sorted(PEN)

_core = None


def core(req):
    global _core
    if _core is None or _core.poll() is not None:
        _core = subprocess.Popen([os.environ["VERIF_CORE"]], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
    _core.stdin.write(json.dumps(req) + "\n")
    _core.stdin.flush()
    line = _core.stdout.readline()
    if not line:
        raise RuntimeError("the core service died")
    return json.loads(line)


def _hints():
    """Numbers written in the package's sources: they only bias the generators, nothing is judged by them."""
    root = os.environ.get("VERIF_REPO", "/repo") + "/python"
    nums = set()
    for d in ("sparseglm", "src"):
        for f in sorted(os.listdir(os.path.join(root, d)) if os.path.isdir(os.path.join(root, d)) else []):
            src = open(os.path.join(root, d, f), errors="replace").read() if f.endswith((".py", ".rs")) else ""
            src = re.sub(r'(?s)"""(.*?)"""|//[^\n]*|#[^\n]*', " ", src)
            for t in re.findall(r"(?<![\w.])\d+(?:_\d+)*(?:\.\d*)?(?:[eE][-+]?\d+)?", src):
                nums.add(float(t.replace("_", "")))
    nums = {v for v in nums if 0 < v < 1e12}
    return sorted({int(v) for v in nums if v == int(v) and 2 <= v <= 2000}), sorted(nums)


INTS, FLOATS = _hints()


def near_ints(lo, hi):
    """Numbers of the sources within [lo, hi], or next to one; else any number of the range."""
    c = sorted({w for v in INTS for w in (v - 1, v, v + 1) if lo <= w <= hi})
    return st.sampled_from(c) if c else st.integers(lo, hi)


def near_floats(lo, hi):
    c = sorted({w for v in FLOATS for w in (v, v * 0.99, v * 1.01, v / 2, v * 2) if lo <= w <= hi})
    return st.sampled_from(c) if c else st.floats(lo, hi)


@st.composite
def problems(draw, multi, max_n=14, max_p=12, max_t=4):
    """kind of values (of X; of Y: ykind): 0 real, 1 single-precision representable, 2 small integers; sparse or not."""
    n = draw(st.integers(1, max_n))
    p = draw(st.integers(1, max_p))
    t = draw(st.integers(1, max_t)) if multi else 1
    large = draw(st.integers(0, 59))
    if large == 0:
        # one dimension far beyond the usual ones
        which = draw(st.integers(0, 2 if multi else 1))
        v = draw(st.one_of(st.integers(20, 150), near_ints(3, 150)))
        n, p, t = (v, p, t) if which == 0 else (n, v, t) if which == 1 else (n, p, min(v, 40))
    kind = draw(st.integers(0, 2))
    density = draw(st.sampled_from([1.0, 0.4]))
    rng = np.random.default_rng(draw(st.integers(0, 2**32 - 1)))
    corr = draw(st.sampled_from([0.0, 0.7]))
    X = rng.standard_normal((n, p))
    if corr:
        for j in range(1, p):
            X[:, j] = corr * X[:, j - 1] + np.sqrt(1 - corr**2) * X[:, j]
    W = rng.standard_normal((p, t)) * (rng.random((p, 1)) < 0.4)
    Y = X @ W + draw(st.sampled_from([0.1, 1.0])) * rng.standard_normal((n, t))
    if density < 1:
        X = X * (rng.random((n, p)) < density)
    ykind = kind if draw(st.integers(0, 2)) else draw(st.integers(0, 2))
    if kind == 1:
        X = X.astype(np.float32).astype(float)
    elif kind == 2:
        X = np.rint(2 * X)
    elif draw(st.integers(0, 9)) == 0:
        # one column, or all of them, far from unit scale
        X[:, draw(st.integers(0, p - 1)) if draw(st.booleans()) else slice(None)] *= 2.0 ** draw(st.sampled_from([-50, -25, -12, 12, 25]))
    if ykind == 1:
        Y = Y.astype(np.float32).astype(float)
    if ykind == 2:
        Y = np.rint(3 * Y)
    elif draw(st.integers(0, 9)) == 0:
        Y = Y * 2.0 ** draw(st.sampled_from([-50, -25, -12, 12, 25]))
    return dict(n=n, p=p, t=t, kind=kind, ykind=ykind, x=(X + 0.0).tolist(), y=(Y + 0.0).tolist())


def arrays(pb):
    return (np.array(pb["x"], dtype=float).reshape(pb["n"], pb["p"]),
            np.array(pb["y"], dtype=float).reshape(pb["n"], pb["t"]))


XFORMS = ["C", "F", "strided", "reversed", "inner", "f32", "int", "list", "readonly", "csc", "csr", "coo", "csc_f32", "csc_int",
          "csc_unsorted", "csc_zeros", "lil", "csc_array", "csr_array"]
YFORMS = ["C", "strided", "reversed", "f32", "int", "list", "F", "readonly"]
DENSE_X = XFORMS[:9]
SPARSE_X = XFORMS[9:]


def forms(kind, names):
    """Containers that hold the numbers exactly."""
    ok = []
    for f in names:
        if "int" in f and kind != 2:
            continue
        if "f32" in f and kind == 0:
            continue
        ok.append(f)
    return ok


def put(a, form, seed=0):
    """The array `a` (1-D or 2-D) in the given container."""
    if form == "C":
        return np.ascontiguousarray(a)
    if form == "F":
        return np.asfortranarray(a)
    if form == "strided":
        big = np.full([2 * s + 1 for s in a.shape], 7.25e3)
        v = big[tuple(slice(0, 2 * s, 2) for s in a.shape)]
        v[...] = a
        return v
    if form == "reversed":
        sl = tuple(slice(None, None, -1) for _ in a.shape)
        return np.ascontiguousarray(a[sl])[sl]
    if form == "inner":
        big = np.full([s + 3 for s in a.shape], 7.25e3)
        v = big[tuple(slice(1, s + 1) for s in a.shape)]
        v[...] = a
        return v
    if form == "f32":
        return a.astype(np.float32)
    if form == "int":
        return a.astype([np.int64, np.int32, np.int16][seed % 3])
    if form == "list":
        return a.tolist()
    if form == "readonly":
        b = a.copy()
        b.setflags(write=False)
        return b
    if form == "csc":
        return sp.csc_matrix(a)
    if form == "csr":
        return sp.csr_matrix(a)
    if form == "coo":
        return sp.coo_matrix(a)
    if form == "lil":
        return sp.lil_matrix(a)
    if form == "csc_array":
        return sp.csc_array(a)
    if form == "csr_array":
        return sp.csr_array(a)
    if form == "csc_f32":
        return sp.csc_matrix(a.astype(np.float32))
    if form == "csc_int":
        return sp.csc_matrix(a.astype(np.int64))
    rng = np.random.default_rng(seed)
    data, idx, ptr = [], [], [0]
    for j in range(a.shape[1]):
        rows = [i for i in range(a.shape[0]) if a[i, j] != 0 or (form == "csc_zeros" and rng.random() < 0.3)]
        if form == "csc_unsorted":
            rng.shuffle(rows)
        idx += rows
        data += [a[i, j] for i in rows]
        ptr.append(len(idx))
    m = sp.csc_matrix(a.shape)
    m.data, m.indices, m.indptr = np.array(data, dtype=float), np.array(idx, dtype=np.int32), np.array(ptr, dtype=np.int32)
    return m


def snapshot(o):
    """Bytes of everything a container holds."""
    if sp.issparse(o):
        parts = []
        for k in ("data", "indices", "indptr", "row", "col", "rows"):
            if hasattr(o, k):
                v = getattr(o, k)
                parts.append((k, str(v.dtype), v.shape, repr(v.tolist())))
        return parts
    if isinstance(o, np.ndarray):
        base = o.base if isinstance(o.base, np.ndarray) else o
        return (o.dtype.str, o.shape, o.strides, base.tobytes())
    return repr(o)


def norms(a):
    return np.sqrt((a * a).sum(axis=1))


def violations(pb, pen, alpha, ratio, gamma, coef):
    """Per-feature distance to optimality of 1/(2n)||Y - XW||^2 + penalty, in NumPy. coef: (p, t)."""
    X, Y = arrays(pb)
    G = X.T @ (X @ coef - Y) / pb["n"]
    r = norms(coef)
    g = norms(G)
    out = np.zeros(pb["p"])
    for j in range(pb["p"]):
        if r[j] == 0:
            out[j] = max(0.0, g[j] - alpha * (ratio if pen == "EN" else 1.0))
            continue
        u = coef[j] / r[j]
        if pen == "L1":
            d = alpha
        elif pen == "EN":
            d = alpha * (ratio + (1 - ratio) * r[j])
        else:
            d = max(0.0, alpha - r[j] / gamma)
        out[j] = np.linalg.norm(G[j] + d * u)
    return out


def slack(pb, alpha, coef):
    X, Y = arrays(pb)
    col = np.sqrt((X * X).sum(axis=0)).max(initial=0.0)
    s = col * (np.linalg.norm(Y) + np.linalg.norm(np.abs(X) @ np.abs(coef))) / pb["n"] + alpha * (1 + np.abs(coef).max(initial=0.0))
    return 500 * (4 + np.sqrt(pb["n"])) * 2.3e-16 * s


def alpha_max(pb):
    X, Y = arrays(pb)
    return float(norms(X.T @ Y).max(initial=0.0) / pb["n"])
