"""Planted bugs: id, property, edits [(file, old or (old, nth occurrence), new)], needs, breaks, demo."""
CD = "src/solvers/anderson_cd/mod.rs"; BCD = "src/solvers/anderson_bcd/mod.rs"
SEP = "src/penalties/separable/mod.rs"; BLK = "src/penalties/block_separable/mod.rs"
DF1 = "src/datafits/single_task/mod.rs"; DF2 = "src/datafits/multi_task/mod.rs"
DM = "src/datasets/impl_design_matrix.rs"; UT = "src/utils/mod.rs"
EST = "src/estimators/estimators.rs"; HYP = "src/estimators/hyperparams.rs"
PE = "python/sparseglm/estimators.py"; PU = "python/sparseglm/utils.py"
BUGS = []
def bug(**k): BUGS.append(k)

bug(id="c02-first-task-null-rows", property="C02", edits=[
 (BCD, "if W.slice(s![j, ..]).iter().any(|&x| x != F::zero()) {", "if W[[j, 0]] != F::zero() {")],
 needs="a first task whose coefficients are all exactly zero (zero targets) and a starting working set smaller than the support",
 breaks="rows with a zero first entry count as null: the working set never grows and the fit stops short of optimality",
 rust='''
fn main() {
    let x = mat(3, 30, 12);
    let mut y = x.dot(&mat(8, 12, 3));
    y.column_mut(0).fill(0.0);
    let data = DenseDataset::from((x.clone(), y.clone()));
    let w = MultiTaskLasso::params().alpha(0.001).tolerance(1e-8).ws_start_size(2).max_iterations(15).verbose(false).fit(&data).unwrap().coefficients().to_owned();
    let v = kkt(&x, &y, &w, 0.001, 1.0);
    ok(v < 1e-5, &format!("optimality violated by {}", v));
}''')

bug(id="c05-accel-datafit-only", property="C05", edits=[
 (BCD, "let p_obj_acc = datafit.value(dataset, XW_acc.view()) + penalty.value(W_acc.view());", "let p_obj_acc = datafit.value(dataset, XW_acc.view()) + penalty.value(W.view());")],
 needs="a multi-task fit with acceleration whose extrapolated point lowers the datafit but raises the penalty by more",
 breaks="an extrapolated point that increases the objective is adopted",
 rust='''
fn obj(x: &Array2<f64>, y: &Array2<f64>, w: &Array2<f64>, a: f64) -> f64 {
    let r = y - &x.dot(w);
    r.mapv(|v| v * v).sum() / (2.0 * x.nrows() as f64) + a * w.rows().into_iter().map(|v| v.dot(&v).sqrt()).sum::<f64>()
}
fn main() {
    for seed in 0..400 {
        let x = mat(seed, 6, 4);
        let y = mat(seed + 1000, 6, 2);
        let a = 0.1;
        let data = DenseDataset::from((x.clone(), y.clone()));
        let mut last = f64::INFINITY;
        for e in 0..12 {
            let w = MultiTaskLasso::params().alpha(a).K(2).max_iterations(1).max_epochs(e).tolerance(0.0).verbose(false).fit(&data).unwrap().coefficients().to_owned();
            let o = obj(&x, &y, &w, a);
            ok(o <= last + 1e-12 * (1.0 + o), &format!("seed {}: objective rises from {} to {} at epoch {}", seed, last, o, e));
            last = o;
        }
    }
}''')

bug(id="c06-reversed-views", property="C06", edits=[
 (DM, "Xw.scaled_add(diff, &self.slice(s![.., j]));", '''let (n, p) = self.dim();
        match self.as_slice_memory_order() {
            Some(buf) if n > 1 && p > 1 && self.strides()[0].abs() == 1 => {
                // Column-major matrices: columns are contiguous in memory
                for (xw, &x) in Xw.iter_mut().zip(&buf[j * n..(j + 1) * n]) {
                    *xw += diff * x;
                }
            }
            _ => Xw.scaled_add(diff, &self.slice(s![.., j])),
        }''')],
 needs="a column-major design matrix seen through a view with a reversed axis",
 breaks="the model fit is updated with the wrong column (or the column upside down) for reversed views",
 rust='''
fn main() {
    let x = mat(3, 9, 4);
    let y = Array1::from(rnd(5, 9));
    let base = DenseDataset::from((x.clone(), y.clone()));
    let w = Lasso::params().alpha(0.01).tolerance(1e-10).verbose(false).fit(&base).unwrap().coefficients().to_owned();
    let mut f = Array2::zeros((9, 4).f());
    f.assign(&x.slice(s![..;-1, ..]));
    let v = f.slice(s![..;-1, ..]);
    let data = DenseDatasetView::from((v, y.view()));
    let u = Lasso::params().alpha(0.01).tolerance(1e-10).verbose(false).fit(&data).unwrap().coefficients().to_owned();
    ok(gap1(&w, &u) < 1e-6, "the reversed view gives other coefficients");
}''')

bug(id="c07-single-entry-columns", property="C07", edits=[
 (UT, "for idx in X.indptr[j]..X.indptr[j + 1] {\n                Xty[j] =", "let end = X.indptr[j + 1];\n            if end - X.indptr[j] < 2 {\n                continue;\n            }\n            for idx in X.indptr[j]..end {\n                Xty[j] =")],
 needs="a sparse matrix whose most correlated column stores a single entry",
 breaks="compute_alpha_max_sparse ignores columns with one stored entry and returns too small a value",
 rust='''
fn main() {
    let x = array![[0.5, 0.0, 0.1], [0.2, 9.0, 0.0], [0.0, 0.0, 0.3]];
    let y = array![1.0, 2.0, -1.0];
    let (d, i, p) = csc(&x);
    let a = compute_alpha_max_sparse(&CSCArray::new(d.view(), i.view(), p.view()), y.view());
    ok((a - 6.0f64).abs() < 1e-12, &format!("alpha_max = {}", a));
}''')

bug(id="c09-mcp-sign-index", property="C09", edits=[
 (SEP, '''grad.iter()
                .zip(ws)
                .map(|(&grad_idx, &j)| {
                    if w[j] == F::zero() {''', '''grad.iter()
                .zip(ws)
                .enumerate()
                .map(|(k, (&grad_idx, &j))| {
                    let sign = if w[k] * w[j] < F::zero() { -w[j].signum() } else { w[j].signum() };
                    if w[j] == F::zero() {'''),
 (SEP, "(grad_idx + self.alpha * w[j].signum() - w[j] / self.gamma).abs()", "(grad_idx + self.alpha * sign - w[j] / self.gamma).abs()")],
 needs="a working set in another order than the features, with coefficients of both signs in the concave part of MCP",
 breaks="the optimality distance of MCP uses the sign of another feature",
 rust='''
fn main() {
    let pen = MCP::new(1.0f64, 3.0);
    let w = array![0.5, -0.7, 0.0];
    let ws = array![1usize, 0, 2];
    let grad = array![0.2, -0.1, 0.3];
    let (d, _) = pen.subdiff_distance(w.view(), grad.view(), ws.view());
    ok((d[0] - (0.2f64 - 1.0 + 0.7 / 3.0).abs()).abs() < 1e-12, &format!("distances {:?}", d));
    ok((d[1] - (-0.1f64 + 1.0 - 0.5 / 3.0).abs()).abs() < 1e-12, &format!("distances {:?}", d));
}''')

bug(id="c10-full-grad-empty-columns", property="C10", edits=[
 (DF1, ("(0..dataset.design_matrix().n_features())\n                .into_iter()\n                .map(|j| self.gradient_j(dataset, Xw, j))", 4), '''(0..dataset.design_matrix().n_features())
                .map(|j| {
                    // Features with a zero step constant do not take part in the descent
                    match self.lipschitz[j] > F::epsilon() {
                        true => self.gradient_j(dataset, Xw, j),
                        false => F::zero(),
                    }
                })''')],
 needs="the full gradient of the sparse logistic datafit with a column of tiny but non-zero entries",
 breaks="the full gradient differs from the coordinate gradients for columns with tiny entries",
 rust='''
fn main() {
    let x = array![[1e-9, 0.5], [3e-9, 0.0], [0.0, -0.5], [-2e-9, 1.0]];
    let y = array![1.0, -1.0, 1.0, 1.0];
    let (d, i, p) = csc(&x);
    let data = SparseDataset::from((CSCArray::new(d.view(), i.view(), p.view()), y.view()));
    let mut df = Logistic::new();
    df.initialize(&data);
    let xw = array![0.1, 0.2, 0.3, -0.4];
    let g: Array1<f64> = df.full_grad(&data, xw.view());
    for j in 0..2 {
        let c: f64 = df.gradient_j(&data, xw.view(), j);
        ok((g[j] - c).abs() <= 1e-12 * c.abs(), &format!("full gradient {} coordinate gradient {}", g[j], c));
    }
}''')

bug(id="c11-zero-iterations", property="C11", edits=[
 (BCD, "for t in 0..max_iterations {", "for t in 0..max_iterations.max(1) {")],
 needs="a multi-task fit with max_iterations = 0",
 breaks="a budget of zero iterations still runs one",
 rust='''
fn main() {
    let data = DenseDataset::from((mat(3, 9, 4), mat(4, 9, 2)));
    let w = MultiTaskElasticNet::params().alpha(0.01).max_iterations(0).verbose(false).fit(&data).unwrap().coefficients().to_owned();
    ok(w.iter().all(|&v: &f64| v == 0.0), "coefficients move with a zero budget");
}''')

bug(id="c12-single-task-ridge", property="C12", edits=[
 (BLK, "let prox = block_soft_thresholding(value, self.alpha * stepsize * self.l21_ratio);", '''if self.l21_ratio == F::zero() {
            // Pure ridge: plain shrinkage, no thresholding needed
            return &value / (F::one() + stepsize * self.alpha.powi(2).sqrt().min(F::one()));
        }
        let prox = block_soft_thresholding(value, self.alpha * stepsize * self.l21_ratio);''')],
 needs="l1_ratio exactly zero and alpha above one in a multi-task elastic net",
 breaks="the ridge special case caps alpha at one, so the fit is not the ridge solution",
 rust='''
fn main() {
    let x = mat(3, 20, 2) * 3.0;
    let y = mat(4, 20, 1);
    let alpha = 2.5;
    let w = Solver::new().tolerance(0.0).max_iterations(5).max_epochs(300).verbose(false)
        .solve_multi_task(&DenseDataset::from((x.clone(), y.clone())), &mut QuadraticMultiTask::new(), &BlockL1PlusL2::new(alpha, 0.0)).unwrap();
    let g = x.t().dot(&(x.dot(&w) - &y)) / 20.0 + &w * alpha;
    ok(g.iter().all(|v: &f64| v.abs() < 1e-7), &format!("gradient of the ridge objective {:?}", g));
}''')

bug(id="c13-cancelling-updates", property="C13", edits=[
 (BCD, "if diff.iter().any(|&x| x != F::zero()) {", "if diff.sum() != F::zero() {")],
 needs="a multi-task problem whose coefficient updates cancel exactly across tasks (targets y and -y)",
 breaks="the model fit is not updated when the entries of a row update sum to zero, so mirrored tasks lose their coefficients' effect",
 rust='''
fn main() {
    let x = mat(3, 15, 4);
    let y1 = Array1::from(rnd(9, 15));
    let mut y = Array2::zeros((15, 2));
    y.column_mut(0).assign(&y1);
    y.column_mut(1).assign(&(-&y1));
    let data = DenseDataset::from((x.clone(), y.clone()));
    let w = MultiTaskLasso::params().alpha(0.01).tolerance(1e-9).verbose(false).fit(&data).unwrap().coefficients().to_owned();
    let v = kkt(&x, &y, &w, 0.01, 1.0);
    ok(v < 1e-6, &format!("optimality violated by {}", v));
}''')

bug(id="c14-swapped-budgets", property="C14", edits=[
 (EST, ("let penalty = BlockL1PlusL2::new(self.alpha(), self.l1_ratio());\n\n        let W = block_coordinate_descent(\n            dataset,\n            &mut datafit,\n            &penalty,\n            self.ws_start_size(),\n            self.max_iterations(),\n            self.max_epochs(),", 2),
  "let penalty = BlockL1PlusL2::new(self.alpha(), self.l1_ratio());\n\n        let W = block_coordinate_descent(\n            dataset,\n            &mut datafit,\n            &penalty,\n            self.ws_start_size(),\n            self.max_epochs(),\n            self.max_iterations(),")],
 needs="a sparse multi-task elastic net fit with different small budgets of iterations and epochs",
 breaks="max_iterations and max_epochs are swapped on the sparse path",
 rust='''
fn main() {
    let x = mat(3, 9, 4);
    let y = mat(4, 9, 2);
    let (d, i, p) = csc(&x);
    let s = SparseDataset::from((CSCArray::new(d.view(), i.view(), p.view()), y.view()));
    let q = DenseDatasetView::from((x.view(), y.view()));
    let par = MultiTaskElasticNet::params().alpha(0.01).l1_ratio(0.5).ws_start_size(2).max_iterations(1).max_epochs(7).tolerance(0.0).verbose(false);
    let a = par.fit(&s).unwrap().coefficients().to_owned();
    let b = par.fit(&q).unwrap().coefficients().to_owned();
    ok(gap(&a, &b) < 1e-9, "sparse and dense fits differ under a small budget");
}''')

bug(id="c15-absolute-weights", property="C15", edits=[
 (CD, "let c = &z / z.sum();", "let c = &z / z.iter().map(|&zk| num_traits::Float::abs(zk)).sum::<F>();")],
 needs="an extrapolation whose weights have both signs",
 breaks="the extrapolation weights do not sum to one, so the extrapolated point is wrong (and is silently rejected)",
 rust='''
fn main() {
    // one feature pair, strongly correlated: the extrapolation after K epochs hits the solution of a two-dimensional problem
    let x = array![[1.0, 0.9], [0.2, 0.5], [0.1, -0.2], [0.7, 0.8]];
    let y = array![1.0, 2.0, -0.5, 0.3];
    let data = DenseDataset::from((x.clone(), y.clone()));
    let w = Solver::new().tolerance(0.0).max_iterations(1).max_epochs(4).K(3).verbose(false).solve(&data, &mut Quadratic::new(), &L1::new(1e-9)).unwrap();
    let g = x.t().dot(&(x.dot(&w) - &y)) / 4.0;
    ok(g.iter().all(|v: &f64| v.abs() < 1e-6), &format!("gradient after one extrapolation {:?}", g));
}''')

bug(id="c16-zero-column-block", property="C16", edits=[
 (BCD, '''match lipschitz[j] == F::zero() {
                    true => continue,''', '''match lipschitz[j] < F::zero() {
                    true => continue,''')],
 needs="a multi-task problem with an all-zero column in the working set",
 breaks="zero columns are no longer skipped: division by a zero constant gives NaN coefficients or a panic",
 rust='''
fn main() {
    let mut x = mat(3, 9, 4);
    x.column_mut(2).fill(0.0);
    let data = DenseDataset::from((x, mat(4, 9, 2)));
    let w = MultiTaskLasso::params().alpha(0.01).verbose(false).fit(&data).unwrap().coefficients().to_owned();
    ok(w.iter().all(|v: &f64| v.is_finite()), "non-finite coefficients");
}''')

bug(id="c17-stale-precomputation", property="C17", edits=[
 (DF2, '''let Y = dataset.targets().as_multi_tasks();
        self.XtY = X.t().dot(&Y);''', '''let Y = dataset.targets().as_multi_tasks();
        let lipschitz = X.map_axis(Axis(0), |Xj| Xj.dot(&Xj) / n_samples);
        if lipschitz == self.lipschitz && self.XtY.ncols() == Y.ncols() {
            // Same design matrix as in the previous call
            return;
        }
        self.XtY = X.t().dot(&Y);''')],
 needs="one datafit object used for two multi-task problems with the same design matrix and different targets",
 breaks="the product X'Y of the previous targets is reused",
 rust='''
fn main() {
    let x = mat(3, 9, 4);
    let (y1, y2) = (mat(4, 9, 2), mat(5, 9, 2));
    let s = Solver::new().verbose(false);
    let mut df = QuadraticMultiTask::new();
    let pen = L21::new(0.01);
    s.solve_multi_task(&DenseDatasetView::from((x.view(), y1.view())), &mut df, &pen).unwrap();
    let d2 = DenseDatasetView::from((x.view(), y2.view()));
    let a = s.solve_multi_task(&d2, &mut df, &pen).unwrap();
    let b = s.solve_multi_task(&d2, &mut QuadraticMultiTask::new(), &pen).unwrap();
    ok(gap(&a, &b) < 1e-12, "the second fit depends on the first");
}''')

bug(id="c18-sorts-the-input", property="C18", edits=[
 (PE, ("        if sp.issparse(X):\n            coefs = inner.fit_sparse(X.data, X.indices, X.indptr, y)", 2), "        if sp.issparse(X):\n            X.sort_indices()\n            coefs = inner.fit_sparse(X.data, X.indices, X.indptr, y)")],
 needs="MCPRegressor on a CSC matrix with unsorted row indices",
 breaks="fit reorders the caller's matrix in place",
 py='''
import sys
import numpy as np, scipy.sparse as sp
from sparseglm.estimators import MCPRegressor
X = sp.csc_matrix((np.array([1.0, 2.0, 3.0, -1.0]), np.array([2, 0, 1, 0], dtype=np.int32), np.array([0, 2, 4], dtype=np.int32)), shape=(3, 2))
before = X.indices.copy(), X.data.copy()
MCPRegressor(0.5, 30.0, verbose=False).fit(X, np.array([1.0, 2.0, 3.0]))
sys.exit(0 if (X.indices == before[0]).all() and (X.data == before[1]).all() else 1)
''')

bug(id="c18-extrapolation-depth", property="C18", edits=[
 ("python/src/mcp.rs", ".K(k)", ".K(usize::min(k, ws_start_size))")],
 needs="MCPRegressor with a working-set size below K and a limited budget",
 breaks="the Python MCP model silently uses another extrapolation depth than asked for",
 py='''
import sys
import numpy as np
from sparseglm.estimators import MCPRegressor, BlockMCPRegressor
rng = np.random.RandomState(0)
bad = 0
for k in range(20):
    X = rng.randn(20, 6); X[:, 1] = X[:, 0] + 0.1 * rng.randn(20)
    X *= np.sqrt(20) / np.linalg.norm(X, axis=0)
    y = X[:, 0] - 2 * X[:, 1] + rng.randn(20)
    kw = dict(alpha=0.05, gamma=3.0, max_iter=4, max_epochs=9, tol=0.0, p0=2, K=4, verbose=False)
    a = MCPRegressor(**kw).fit(X, y).coef_
    b = BlockMCPRegressor(**kw).fit(X, y[:, None]).coef_[0]
    bad += not np.allclose(a, b, atol=1e-8)
sys.exit(1 if bad else 0)
''')

bug(id="c19-longer-targets", property="C19", edits=[
 (PE, ("if n_samples != Y.shape[0]:", 3), "if n_samples > Y.shape[0]:")],
 needs="MultiTaskElasticNet fitted with more target rows than samples",
 breaks="targets longer than the design matrix are not rejected with ValueError",
 py='''
import sys
import numpy as np
from sparseglm.estimators import MultiTaskElasticNet
try:
    MultiTaskElasticNet(0.5, 0.5, verbose=False).fit(np.ones((3, 2)), np.ones((5, 2)))
except ValueError:
    sys.exit(0)
except BaseException as e:
    print(type(e))
sys.exit(1)
''')

bug(id="c20-multi-task-noise", property="C20", edits=[
 (PU, "Y += noise / norm(noise) * norm(Y) / snr", "Y += noise / norm(noise, axis=0) * norm(Y) / snr / np.sqrt(len(Y.T) if Y.ndim > 1 and n_tasks > 2 else 1)"),],
 needs="make_correlated_data with exactly two tasks",
 breaks="with two tasks the noise is scaled per task and the signal-to-noise ratio is too small",
 py='''
import sys
import numpy as np
from sparseglm.utils import make_correlated_data
X, Y, W = make_correlated_data(30, 10, n_tasks=2, snr=4, density=0.5, random_state=0)
S = X @ W
r = np.linalg.norm(S) / np.linalg.norm(Y - S)
sys.exit(0 if abs(r - 4) < 1e-6 else 1)
''')

bug(id="c20-repeated-support", property="C20", edits=[
 (PU, "support = rng.choice(n_features, nnz, replace=False)", "support = rng.choice(n_features, nnz, replace=nnz < n_features // 4)")],
 needs="a density below one quarter and a draw that repeats an index",
 breaks="fewer coefficients than requested are non-zero",
 py='''
import sys
import numpy as np
from sparseglm.utils import make_correlated_data
for s in range(30):
    _, _, w = make_correlated_data(10, 50, density=0.2, random_state=s)
    if (w != 0).sum() != 10:
        sys.exit(1)
sys.exit(0)
''')

bug(id="c21-sparse-extrapolated-fit", property="C21", edits=[
 (DM, '''        let mut XW_acc = Array2::<F>::zeros((n_samples, n_tasks));
        for &j in ws {''', '''        let mut XW_acc = Array2::<F>::zeros((n_samples, n_tasks));
        for &j in ws {
            // Null rows do not contribute
            if W_acc[[j, n_tasks - 1]] == F::zero() {
                continue;
            }''')],
 needs="sparse multi-task data whose last task has zero targets, acceleration on",
 breaks="rows whose last entry is zero are left out of the extrapolated prediction",
 rust='''
fn main() {
    let x = mat(3, 8, 4);
    let (d, i, p) = csc(&x);
    let m = CSCArray::new(d.view(), i.view(), p.view());
    let w = array![[1.0, 0.0], [0.5, 2.0], [0.0, 0.0], [-1.0, 0.0]];
    let fit = m.compute_extrapolated_fit_multi_task(Array1::from(vec![3usize, 0, 1]).view(), &w, 8, 2);
    ok(gap(&fit, &x.dot(&w)) < 1e-12, "the extrapolated prediction is not X times the coefficients");
}''')

bug(id="c01-slow-growth", property="C01", edits=[
 (CD, "usize::min(2 * nnz_features, n_features)", "usize::min(nnz_features + nnz_features / 8, n_features)")],
 needs="a starting working set smaller than eight and than the support of the solution",
 breaks="the working set does not grow while fewer than eight coefficients are non-zero",
 rust='''
fn main() {
    let x = mat(3, 40, 12);
    let y = x.dot(&Array1::from(rnd(8, 12)));
    let data = DenseDataset::from((x.clone(), y.clone()));
    let w = Lasso::params().alpha(0.001).tolerance(1e-8).ws_start_size(2).max_iterations(200).verbose(false).fit(&data).unwrap().coefficients().to_owned();
    let v = kkt(&x, &y.insert_axis(Axis(1)), &w.insert_axis(Axis(1)), 0.001, 1.0);
    ok(v < 1e-5, &format!("optimality violated by {}", v));
}''')

bug(id="c22-tolerance-floor", property="C22", edits=[
 (CD, "    let mut w = Array1::<F>::zeros(n_features);\n    let mut Xw", "    // No point in asking for more than the arithmetic can deliver\n    let tolerance = F::max(tolerance, num_traits::Float::sqrt(F::epsilon()));\n\n    let mut w = Array1::<F>::zeros(n_features);\n    let mut Xw")],
 needs="a single-precision fit of data on a small scale with a tolerance below 3e-4",
 breaks="single-precision fits stop far from the optimum (the floor on the tolerance is absolute)",
 rust='''
fn main() {
    let x = mat(3, 20, 5).mapv(|v| v as f32);
    let y = Array1::from(rnd(5, 20)).mapv(|v| 1e-4 * v as f32);
    let a = compute_alpha_max(x.view(), y.view()) * 0.1;
    let s = Solver::new().tolerance(1e-9f32).max_iterations(100).verbose(false);
    let w = s.solve(&DenseDatasetView::from((x.view(), y.view())), &mut Quadratic::new(), &L1::new(a)).unwrap();
    let v = kkt(&x.mapv(|v| v as f64), &y.mapv(|v| v as f64).insert_axis(Axis(1)), &w.mapv(|v| v as f64).insert_axis(Axis(1)), a as f64, 1.0);
    ok(v < 1e-7, &format!("optimality violated by {}", v));
}''')

bug(id="c21-negligible-updates", property="C21", edits=[
 (CD, "if diff != F::zero() {", "if num_traits::Float::abs(diff) > F::epsilon() {")],
 needs="coefficients on a scale near machine epsilon (large design values, or tiny targets)",
 breaks="updates below machine epsilon in absolute value do not reach the prediction",
 rust='''
fn main() {
    let x = mat(3, 20, 5) * 1e6;
    let y = Array1::from(rnd(5, 20)) * 1e-9;
    let a = compute_alpha_max(x.view(), y.view()) * 0.1;
    let data = DenseDataset::from((x.clone(), y.clone()));
    let w = Lasso::params().alpha(a).tolerance(a * 1e-6).max_iterations(100).verbose(false).fit(&data).unwrap().coefficients().to_owned();
    let v = kkt(&x, &y.insert_axis(Axis(1)), &w.insert_axis(Axis(1)), a, 1.0);
    ok(v < a * 1e-3, &format!("optimality violated by {} with alpha {}", v, a));
}''')

bug(id="c23-zero-gradient-skip", property="C23", edits=[
 (CD, '''let grad_j = datafit.gradient_j(dataset, Xw.view(), j);
                        w[j] =''', '''let grad_j = datafit.gradient_j(dataset, Xw.view(), j);
                        if old_w_j == F::zero() && grad_j == F::zero() {
                            // Nothing to gain along this coordinate
                            continue;
                        }
                        w[j] =''')],
 needs="a user-defined penalty whose proximal operator does not map zero to zero, and a feature with an exactly zero gradient at zero",
 breaks="a null coordinate with a zero gradient is never moved although the penalty pulls it away from zero",
 rust='''
struct Shifted;
impl Penalty<f64> for Shifted {
    fn value(&self, w: ArrayView1<f64>) -> f64 { w.iter().map(|v| (v - 1.0).abs()).sum() }
    fn prox(&self, v: f64, s: f64) -> f64 { 1.0 + soft_thresholding(v - 1.0, s) }
    fn subdiff_distance(&self, w: ArrayView1<f64>, g: ArrayView1<f64>, ws: ArrayView1<usize>) -> (Array1<f64>, f64) {
        let d = Array1::from_iter(ws.iter().zip(g).map(|(&j, &g)| if w[j] == 1.0 { (g.abs() - 1.0).max(0.0) } else { (g + (w[j] - 1.0).signum()).abs() }));
        let m = d.fold(0.0, |a: f64, &b| a.max(b));
        (d, m)
    }
}
fn main() {
    let x = array![[1.0, 1.0], [1.0, -1.0]];
    let y = array![0.0, 0.0];
    let data = DenseDataset::from((x, y));
    let w = Solver::new().verbose(false).solve(&data, &mut Quadratic::new(), &Shifted).unwrap();
    ok(w.iter().all(|v| (v - 1.0).abs() < 1e-6), &format!("coefficients {:?}", w));
}''')

# ---- second wave
bug(id="c02-net-zero-rows", property="C02", edits=[
 (BLK, "F::max(F::zero(), norm_grad_j - self.alpha * self.l21_ratio)", "F::max(F::zero(), norm_grad_j - self.alpha.max(self.alpha * self.l21_ratio))")],
 needs="a multi-task elastic net with l1_ratio below one and a feature whose gradient norm lies between alpha * l1_ratio and alpha",
 breaks="null rows are declared optimal too early",
 rust='''
fn main() {
    let x = mat(3, 30, 6);
    let y = x.dot(&mat(8, 6, 2));
    let a = compute_alpha_max_mtl(x.view(), y.view()) * 1.1;
    let data = DenseDataset::from((x.clone(), y.clone()));
    let w = MultiTaskElasticNet::params().alpha(a).l1_ratio(0.2).tolerance(1e-8).max_iterations(300).verbose(false).fit(&data).unwrap().coefficients().to_owned();
    let v = kkt(&x, &y, &w, a, 0.2);
    ok(v < 1e-5, &format!("optimality violated by {}", v));
}''')

bug(id="c03-block-mcp-scale", property="C03", edits=[
 (BLK, "(cast1 - tau / norm_value) * value_j / (cast1 - cast1 / g))", "(cast1 - tau / norm_value) * value_j / (cast1 - stepsize / F::max(self.gamma, cast1 + stepsize + stepsize)))")],
 needs="a BlockMCP fit with gamma below 1 + 2 * step",
 breaks="with a small gamma the rows in the concave part are scaled by the wrong factor, so the fit is not stationary",
 rust='''
fn main() {
    let x = mat(4, 40, 6);
    let y = x.dot(&mat(9, 6, 2)) * 0.4;
    let data = DenseDataset::from((x.clone(), y.clone()));
    let (alpha, gamma) = (0.25, 2.2);
    let w = BlockMCPEstimator::params().alpha(alpha).gamma(gamma).tolerance(1e-9).max_iterations(100).verbose(false).fit(&data).unwrap().coefficients().to_owned();
    let g = x.t().dot(&(x.dot(&w) - &y)) / 40.0;
    for j in 0..6 {
        let r = w.row(j).dot(&w.row(j)).sqrt();
        let v = if r == 0.0 { array![(g.row(j).dot(&g.row(j)).sqrt() - alpha).max(0.0)] } else { &g.row(j) + &(&w.row(j) * ((alpha - r / gamma).max(0.0) / r)) };
        ok(v.dot(&v) < 1e-10, &format!("feature {} is {} away from stationarity", j, v));
    }
}''')

bug(id="c04-saturated-samples", property="C04", edits=[
 (DF1, ".map(|(&y_i, &xw_i)| y_i * sigmoid(-y_i * xw_i))", ".map(|(&y_i, &xw_i)| match y_i * xw_i > F::cast(8.) {\n                    // Well classified samples do not pull any more\n                    true => F::zero(),\n                    false => y_i * sigmoid(-y_i * xw_i),\n                })")],
 needs="separable data with a small alpha, so that margins exceed eight",
 breaks="confident samples are left out of the gradient, so the fit stops before the optimum",
 rust='''
fn main() {
    let mut x = mat(3, 20, 3);
    let y = Array1::from_iter((0..20).map(|i| if x[[i, 0]] > 0.0 { 1.0 } else { -1.0 }));
    for i in 0..20 { x[[i, 0]] += y[i]; }
    let alpha = 1e-5;
    let w = Solver::new().tolerance(1e-9).max_iterations(200).max_epochs(5000).verbose(false).solve(&DenseDatasetView::from((x.view(), y.view())), &mut Logistic::new(), &L1::new(alpha)).unwrap();
    let m = &x.dot(&w) * &y;
    let s = Array1::from_iter((0..20).map(|i| -y[i] / (1.0 + f64::exp(m[i])) / 20.0));
    let g = x.t().dot(&s);
    for j in 0..3 {
        let d = if w[j] == 0.0 { (g[j].abs() - alpha).max(0.0) } else { (g[j] + alpha * w[j].signum()).abs() };
        ok(d < 1e-7, &format!("feature {} is {} away from stationarity", j, d));
    }
}''')

bug(id="c05-close-enough", property="C05", edits=[
 (CD, "let p_obj_acc = datafit.value(dataset, Xw_acc.view()) + penalty.value(w_acc.view());", "let p_obj_acc = (datafit.value(dataset, Xw_acc.view()) + penalty.value(w_acc.view()))\n                    * (F::one() - F::cast(1e-3));")],
 needs="an extrapolated point that is slightly worse than the current one",
 breaks="extrapolated points that increase the objective by up to one per mille are adopted",
 rust='''
fn obj(x: &Array2<f64>, y: &Array1<f64>, w: &Array1<f64>, a: f64) -> f64 {
    let r = y - &x.dot(w);
    r.dot(&r) / (2.0 * x.nrows() as f64) + a * w.iter().map(|v| v.abs()).sum::<f64>()
}
fn main() {
    for seed in 0..200 {
        let x = mat(seed, 6, 5);
        let y = Array1::from(rnd(seed + 1000, 6));
        let data = DenseDataset::from((x.clone(), y.clone()));
        let mut last = f64::INFINITY;
        for e in 0..16 {
            let w = Lasso::params().alpha(0.1).K(2).max_iterations(1).max_epochs(e).tolerance(0.0).verbose(false).fit(&data).unwrap().coefficients().to_owned();
            let o = obj(&x, &y, &w, 0.1);
            ok(o <= last + 1e-12 * (1.0 + o), &format!("seed {}: objective rises from {} to {} at epoch {}", seed, last, o, e));
            last = o;
        }
    }
}''')

bug(id="c06-explicit-zeros", property="C06", edits=[
 (DF2, "            for t in 0..n_tasks {\n                XjTXW[t] +=", "            if X.data[i as usize] == F::zero() {\n                // Padding at the end of the column\n                break;\n            }\n            for t in 0..n_tasks {\n                XjTXW[t] +=")],
 needs="a sparse multi-task design matrix with an explicitly stored zero that is not the last entry of its column",
 breaks="entries after a stored zero are ignored in the gradient",
 rust='''
fn main() {
    let x = array![[1.0, 0.3], [0.0, 1.0], [2.0, -1.0], [0.5, 0.7]];
    let y = mat(4, 4, 2);
    let d = array![1.0, 0.0, 2.0, 0.5, 0.3, 1.0, -1.0, 0.7];
    let i = array![0, 1, 2, 3, 0, 1, 2, 3];
    let p = array![0, 4, 8];
    let s = SparseDataset::from((CSCArray::new(d.view(), i.view(), p.view()), y.view()));
    let w = MultiTaskLasso::params().alpha(0.01).tolerance(1e-10).verbose(false).fit(&s).unwrap().coefficients().to_owned();
    let v = kkt(&x, &y, &w, 0.01, 1.0);
    ok(v < 1e-6, &format!("optimality violated by {}", v));
}''')

bug(id="c07-signed-maximum", property="C07", edits=[
 (UT, "let alpha_max = Xty.fold(F::zero(), |max_val, &x| max_val.max(x.abs()));", "let alpha_max = Xty.fold(F::zero(), |max_val, &x| match -x > max_val.max(x) && max_val > F::zero() {\n            true => x.abs(),\n            false => max_val.max(x),\n        });")],
 needs="a sparse matrix whose most correlated column is the first with any correlation, and is negatively correlated",
 breaks="compute_alpha_max_sparse ignores a leading negative correlation",
 rust='''
fn main() {
    let x = array![[-5.0, 0.5], [-3.0, 0.0], [0.0, 0.3]];
    let y = array![1.0, 2.0, 1.0];
    let (d, i, p) = csc(&x);
    let a = compute_alpha_max_sparse(&CSCArray::new(d.view(), i.view(), p.view()), y.view());
    ok((a - 11.0f64 / 3.0).abs() < 1e-12, &format!("alpha_max = {}", a));
}''')

bug(id="c08-negative-mcp", property="C08", edits=[
 (SEP, "value.signum() * (value.abs() - tau) / (F::one() - F::one() / g)", "match value > F::zero() {\n                true => (value - tau) / (F::one() - F::one() / g),\n                false => (value + tau) / (F::one() - F::one() / F::max(g, self.gamma)),\n            }")],
 needs="a negative value in the concave part and a step above one",
 breaks="the MCP operator is not odd: negative values are scaled with gamma instead of gamma / step",
 rust='''
fn main() {
    let pen = MCP::new(1.0f64, 4.0);
    for v in [2.5, 3.0, 3.7] {
        ok((pen.prox(v, 2.0) + pen.prox(-v, 2.0)).abs() < 1e-12, &format!("prox({}) = {} and prox(-{}) = {}", v, pen.prox(v, 2.0), v, pen.prox(-v, 2.0)));
    }
}''')

bug(id="c08-half-power-cosine", property="C08", edits=[
 (UT, "x * F::cast(2. / 3.)\n            * (F::one()", "let two_thirds = F::cast(2. / 3. + if x.abs() > F::cast(100.) * t { 1e-3 } else { 0. });\n        x * two_thirds\n            * (F::one()")],
 needs="a value more than a hundred times the threshold of the L0.5 operator",
 breaks="the L0.5 operator expands large values",
 rust='''
fn main() {
    let p = prox_05(50.0f64, 0.01);
    ok(p <= 50.0 && p > 49.99, &format!("prox_05(50, 0.01) = {}", p));
}''')

bug(id="c10-memory-order", property="C10", edits=[
 (DF2, ("let R = &Y - &XW;\n        let frob: F = R.iter().map(|&x| x.powi(2)).sum();", 1), "let frob: F = match (Y.as_slice_memory_order(), XW.as_slice_memory_order()) {\n            (Some(Y), Some(XW)) => Y.iter().zip(XW).map(|(&a, &b)| (a - b) * (a - b)).sum(),\n            _ => {\n                let R = &Y - &XW;\n                R.iter().map(|&x| x.powi(2)).sum()\n            }\n        };")],
 needs="multi-task targets in another memory order than the model fit",
 breaks="the value of the multi-task datafit pairs targets with predictions of other samples",
 rust='''
fn main() {
    let x = mat(3, 7, 3);
    let y = mat(4, 7, 2);
    let mut yf = Array2::zeros((7, 2).f());
    yf.assign(&y);
    let xw = mat(5, 7, 2);
    let df = QuadraticMultiTask::new();
    let v: f64 = df.value(&DenseDatasetView::from((x.view(), yf.view())), xw.view());
    let d = &y - &xw;
    ok((v - d.mapv(|a| a * a).sum() / 14.0).abs() < 1e-12, &format!("value {}", v));
}''')

bug(id="c11-early-epochs", property="C11", edits=[
 (CD, "for epoch in 0..max_epochs {", "for epoch in 0..usize::max(max_epochs, usize::min(K, ws_size)) {")],
 needs="a budget of epochs below K",
 breaks="the solver runs at least K epochs whatever max_epochs says",
 rust='''
fn main() {
    let x = mat(3, 9, 6);
    let y = Array1::from(rnd(5, 9));
    let data = DenseDataset::from((x.clone(), y.clone()));
    let w = ElasticNet::params().alpha(0.01).l1_ratio(0.5).max_iterations(1).max_epochs(0).tolerance(0.0).verbose(false).fit(&data).unwrap().coefficients().to_owned();
    ok(w.iter().all(|&v: &f64| v == 0.0), "coefficients move with a zero budget of epochs");
}''')

bug(id="c13-tiny-columns", property="C13", edits=[
 (CD, "match lipschitz[j] == F::zero() {\n                    true => continue,", "match lipschitz[j] < F::epsilon() {\n                    true => continue,")],
 needs="features on a scale below 1e-8",
 breaks="features with small entries are treated as empty, so rescaling the data changes the model",
 rust='''
fn main() {
    let x = mat(3, 20, 4);
    let y = Array1::from(rnd(5, 20));
    let s = 1e-9;
    let (xs, a) = (&x * s, 0.01);
    let w = Lasso::params().alpha(a).tolerance(1e-8).verbose(false).fit(&DenseDatasetView::from((x.view(), y.view()))).unwrap().coefficients().to_owned();
    let v = Lasso::params().alpha(a * s).tolerance(1e-8 * s).verbose(false).fit(&DenseDatasetView::from((xs.view(), y.view()))).unwrap().coefficients().to_owned();
    ok(gap1(&w, &(&v * s)) < 1e-6, "rescaled data give other coefficients");
}''')

bug(id="c14-unchecked-depth", property="C14", edits=[
 (HYP, ("        } else if self.0.K <= 0 {", 6), "        } else if self.0.K <= 0 && self.0.use_acceleration {")],
 needs="BlockMCParams (or another of the last models) with K = 0 and acceleration off",
 breaks="an invalid K passes validation when acceleration is off",
 rust='''
fn main() {
    let mut bad = vec![];
    if Lasso::<f64>::params().K(0).use_acceleration(false).check().is_ok() { bad.push("Lasso"); }
    if ElasticNet::<f64>::params().K(0).use_acceleration(false).check().is_ok() { bad.push("ElasticNet"); }
    if MCPEstimator::<f64>::params().gamma(3.0).K(0).use_acceleration(false).check().is_ok() { bad.push("MCP"); }
    if MultiTaskLasso::<f64>::params().K(0).use_acceleration(false).check().is_ok() { bad.push("MultiTaskLasso"); }
    if MultiTaskElasticNet::<f64>::params().K(0).use_acceleration(false).check().is_ok() { bad.push("MultiTaskElasticNet"); }
    if BlockMCPEstimator::<f64>::params().gamma(3.0).K(0).use_acceleration(false).check().is_ok() { bad.push("BlockMCP"); }
    ok(bad.is_empty(), &format!("K = 0 accepted by {:?}", bad));
}''')

bug(id="c15-stale-rows", property="C15", edits=[
 (BCD, ".slice_mut(s![epoch % (K + 1), ..])", ".slice_mut(s![usize::min(epoch, K) % (K + 1), ..])")],
 needs="more than K + 1 epochs with acceleration in a multi-task fit",
 breaks="after the first extrapolation the history is no longer renewed, so later extrapolations use old iterates and are rejected",
 rust='''
fn main() {
    let x = mat(3, 12, 6);
    let y = mat(4, 12, 1);
    for e in [12, 18, 24] {
        let s = Solver::new().tolerance(0.0).max_iterations(1).max_epochs(e).K(5).ws_start_size(10).verbose(false);
        let a = s.solve_multi_task(&DenseDatasetView::from((x.view(), y.view())), &mut QuadraticMultiTask::new(), &L21::new(1e-3)).unwrap();
        let b = s.solve(&DenseDatasetView::from((x.view(), y.column(0))), &mut Quadratic::new(), &L1::new(1e-3)).unwrap();
        ok(gap1(&a.column(0).to_owned(), &b) < 1e-7, &format!("one task, {} epochs: {} against {}", e, a.column(0), b));
    }
}''')

bug(id="c17-remembered-size", property="C17", edits=[
 (BCD, "    // The starting working set can't be greater than the number of features\n    let ws_start_size = if", "    // Working sets as large as the previous solution's save a few iterations on a path\n    let ws_start_size = usize::max(ws_start_size, LAST_SUPPORT.load(Ordering::Relaxed) / 2);\n    let ws_start_size = if"),
 (BCD, "    // Outer loop in charge of constructing the working set\n    for t in 0..max_iterations {\n", "    // Outer loop in charge of constructing the working set\n    for t in 0..max_iterations {\n        LAST_SUPPORT.store(W.rows().into_iter().filter(|r| r.iter().any(|&x| x != F::zero())).count(), Ordering::Relaxed);\n"),
 (BCD, "use ndarray::{s, Array1, Array2, ArrayView1, ArrayView2};\n", "use ndarray::{s, Array1, Array2, ArrayView1, ArrayView2};\nuse std::sync::atomic::{AtomicUsize, Ordering};\n\n/// Size of the support of the last solution\nstatic LAST_SUPPORT: AtomicUsize = AtomicUsize::new(0);\n")],
 needs="a multi-task fit after another one with a large support, in the same process",
 breaks="the working-set size depends on earlier fits, and so do the coefficients",
 rust='''
fn main() {
    let small = DenseDataset::from((mat(3, 15, 8), mat(4, 15, 2)));
    let large = DenseDataset::from((mat(5, 40, 30), mat(6, 40, 2)));
    let p = MultiTaskLasso::params().alpha(0.01).ws_start_size(1).max_iterations(2).max_epochs(5).tolerance(0.0).verbose(false);
    let a = p.fit(&small).unwrap().coefficients().to_owned();
    p.clone().alpha(1e-6).ws_start_size(30).fit(&large).unwrap();
    let b = p.fit(&small).unwrap().coefficients().to_owned();
    ok(a == b, "the same fit gives other coefficients later");
}''')

bug(id="c18-gamma-cap", property="C18", edits=[
 ("python/src/block_mcp.rs", ".gamma(gamma)", ".gamma(gamma.min(1e3))")],
 needs="BlockMCPRegressor with gamma = inf (documented as soft-thresholding)",
 breaks="an infinite gamma is silently replaced, so the model is not the multi-task Lasso",
 py="""
import sys
import numpy as np
from sparseglm.estimators import BlockMCPRegressor, MultiTaskLasso
rng = np.random.RandomState(0)
X = rng.randn(30, 8); Y = 100 * rng.randn(30, 3)
a = BlockMCPRegressor(0.5, np.inf, verbose=False).fit(X, Y).coef_
b = MultiTaskLasso(0.5, verbose=False).fit(X, Y).coef_
sys.exit(0 if np.allclose(a, b, atol=1e-7) else 1)
""")

bug(id="c19-long-ratio", property="C19", edits=[
 (PE, ("_check_types(self.max_epochs, int, \"max_epochs\")", 0), "if self.max_iter > 0:\n            _check_types(self.max_epochs, int, \"max_epochs\")")],
 needs="an estimator with max_iter = 0 and an invalid max_epochs",
 breaks="an invalid max_epochs is not reported as ValueError",
 py="""
import sys
import numpy as np
from sparseglm.estimators import Lasso
try:
    Lasso(0.5, max_iter=0, max_epochs=-3, verbose=False).fit(np.ones((3, 2)), np.ones(3))
except ValueError:
    sys.exit(0)
except BaseException as e:
    print(type(e))
sys.exit(1)
""")

bug(id="c21-negligible-coefficients", property="C21", edits=[
 (DM, ".map(|row| ws.iter().map(|&j| row[j] * w_acc[j]).sum())", ".map(|row| {\n                    ws.iter()\n                        .filter(|&&j| w_acc[j].abs() > F::epsilon())\n                        .map(|&j| row[j] * w_acc[j])\n                        .sum()\n                })")],
 needs="coefficients below machine epsilon (badly scaled features)",
 breaks="tiny extrapolated coefficients do not reach the prediction",
 rust='''
fn main() {
    let x = mat(3, 8, 3) * 1e12;
    let w = array![1e-17, 2e-17, -1e-17];
    let f = x.compute_extrapolated_fit(array![0usize, 1, 2].view(), &w, 8);
    ok(gap1(&f, &x.dot(&w)) < 1e-12, "the extrapolated prediction is not X times the coefficients");
}''')

bug(id="c22-rounded-away", property="C22", edits=[
 (UT, "        if x > threshold {\n            x - threshold", "        if x > threshold && x - threshold < F::epsilon() {\n            // Rounding noise\n            F::zero()\n        } else if x > threshold {\n            x - threshold")],
 needs="single-precision coefficients below 1.2e-7",
 breaks="small positive coefficients are set to zero in single precision only",
 rust='''
fn main() {
    let x = mat(3, 20, 5).mapv(|v| (v * 1e4) as f32);
    let y = Array1::from(rnd(5, 20)).mapv(|v| (v * 1e-4) as f32);
    let a = compute_alpha_max(x.view(), y.view()) * 0.05;
    let s = Solver::new().tolerance(a * 1e-4).max_iterations(100).verbose(false);
    let w = s.solve(&DenseDatasetView::from((x.view(), y.view())), &mut Quadratic::new(), &L1::new(a)).unwrap();
    let v = kkt(&x.mapv(|v| v as f64), &y.mapv(|v| v as f64).insert_axis(Axis(1)), &w.mapv(|v| v as f64).insert_axis(Axis(1)), a as f64, 1.0);
    ok(v < 0.05 * a as f64, &format!("optimality violated by {} with alpha {}", v, a));
}''')

bug(id="c23-finite-distances", property="C23", edits=[
 (CD, "let (kkt_ws, kkt_ws_max) = penalty.subdiff_distance(w, grad_ws.view(), ws);", "let (kkt_ws, _) = penalty.subdiff_distance(w, grad_ws.view(), ws);\n    let kkt_ws_max = kkt_ws\n        .iter()\n        .filter(|d| d.is_finite())\n        .fold(F::zero(), |max_val, &dist| F::max(max_val, dist));")],
 needs="a user-defined penalty that is infinite at zero (a box that excludes zero)",
 breaks="infinite distances are ignored by the stopping rule: the solver returns the infeasible start",
 rust='''
struct Box1;
impl Penalty<f64> for Box1 {
    fn value(&self, w: ArrayView1<f64>) -> f64 { if w.iter().all(|&v| v >= 1.0 && v <= 2.0) { 0.0 } else { f64::INFINITY } }
    fn prox(&self, v: f64, _: f64) -> f64 { v.max(1.0).min(2.0) }
    fn subdiff_distance(&self, w: ArrayView1<f64>, g: ArrayView1<f64>, ws: ArrayView1<usize>) -> (Array1<f64>, f64) {
        let d = Array1::from_iter(ws.iter().zip(g).map(|(&j, &g)| if w[j] < 1.0 || w[j] > 2.0 { f64::INFINITY } else if w[j] == 1.0 { (-g).max(0.0) } else if w[j] == 2.0 { g.max(0.0) } else { g.abs() }));
        let m = d.fold(0.0, |a: f64, &b| a.max(b));
        (d, m)
    }
}
fn main() {
    let data = DenseDataset::from((mat(3, 9, 4), Array1::from(rnd(4, 9))));
    let w = Solver::new().verbose(false).solve(&data, &mut Quadratic::new(), &Box1).unwrap();
    ok(w.iter().all(|&v| v >= 1.0 && v <= 2.0), &format!("coefficients {:?}", w));
}''')

bug(id="c24-late-leniency", property="C24", edits=[
 (CD, "        if kkt_max <= tolerance {\n            break;", "        // Long runs settle for a slightly looser criterion\n        let slack = if t < 12 { F::one() } else { F::cast(2.) };\n        if kkt_max <= slack * tolerance {\n            break;")],
 needs="a fit that needs more than twelve outer iterations and passes between one and two tolerances",
 breaks="late outer iterations stop above the tolerance",
 rust='''
fn main() {
    let mut bad = 0;
    for seed in 0..60 {
        let x = mat(seed, 20, 12);
        let y = Array1::from(rnd(seed + 7, 20));
        let data = DenseDataset::from((x.clone(), y.clone()));
        for e in 1..12 {
            let tol = 10f64.powi(-e);
            let f = |n| Lasso::params().alpha(0.001).tolerance(tol).max_iterations(n).max_epochs(2).use_acceleration(false).verbose(false).fit(&data).unwrap().coefficients().to_owned();
            let a = f(5000);
            let v = kkt(&x, &y.clone().insert_axis(Axis(1)), &a.insert_axis(Axis(1)), 0.001, 1.0);
            if v > tol + 1e-12 { bad += 1; }
        }
    }
    ok(bad == 0, &format!("{} fits stop above the tolerance", bad));
}''')

bug(id="c24-first-iteration", property="C24", edits=[
 (BCD, "        if kkt_max <= tolerance {\n            break;", "        if t > 0 && kkt_max <= tolerance {\n            break;")],
 needs="a multi-task problem whose starting point already meets the tolerance without being optimal",
 breaks="one outer iteration runs although the stopping criterion holds",
 rust='''
fn main() {
    let data = DenseDataset::from((mat(3, 12, 5), mat(5, 12, 2)));
    let w = MultiTaskLasso::params().alpha(0.001).tolerance(1e6).verbose(false).fit(&data).unwrap().coefficients().to_owned();
    ok(w.iter().all(|&v| v == 0.0), "the start meets the tolerance, but the coefficients moved");
}''')

bug(id="c25-sample-cap", property="C25", edits=[
 (CD, "    let ws_start_size = if ws_start_size > n_features {\n        n_features", "    // and there is no need for more features than samples\n    let ws_start_size = if ws_start_size > n_features.min(n_samples) {\n        n_features.min(n_samples)")],
 needs="fewer samples than features and a start size above the number of samples",
 breaks="the first working set is smaller than asked for",
 rust='''
fn main() {
    let data = DenseDataset::from((mat(3, 3, 12), Array1::from(rnd(5, 3))));
    let w = ElasticNet::params().alpha(1e-4).l1_ratio(0.0).ws_start_size(12).max_iterations(1).max_epochs(1).use_acceleration(false).verbose(false).fit(&data).unwrap().coefficients().to_owned();
    let n = w.iter().filter(|&&v| v != 0.0).count();
    ok(n == 12, &format!("one pass over twelve features with a ridge penalty moved {}", n));
}''')

bug(id="c25-finite-sentinel", property="C25", edits=[
 (CD, "kkt[j] = F::infinity();", "kkt[j] = F::epsilon().recip();")],
 needs="violations above 1 / machine epsilon (badly scaled features) next to non-zero coefficients",
 breaks="features of the support rank behind badly scaled ones and drop out of the working set",
 rust='''
fn main() {
    // the first feature is worked on first (start size 1); the second one is discovered at the second iteration
    let mut bad = 0;
    for seed in 0..50 {
        let n = 8;
        let x = mat(seed, n, 12) * 1e9;
        let y = Array1::from(rnd(seed + 90, n)) * 1e9;
        let data = DenseDataset::from((x.clone(), y.clone()));
        let f = |m| Lasso::params().alpha(1e3).ws_start_size(3).tolerance(1.0).max_iterations(m).max_epochs(2).use_acceleration(false).verbose(false).fit(&data).unwrap().coefficients().to_owned();
        for m in 1..6 {
            let (a, b) = (f(m), f(m + 1));
            for j in 0..12 {
                if a[j] != 0.0 && a[j] == b[j] { bad += 1; }
            }
        }
    }
    ok(bad == 0, &format!("{} features of the support were left out of the next iteration", bad));
}''')

bug(id="c26-remembered-width", property="C26", edits=[
 (PE, ("        self._validate_params()\n        X = check_array(X, 'csc', dtype=np.float64, order='F',\n                        copy=False, accept_large_sparse=False)\n", 2), "        self._validate_params()\n        X = check_array(X, 'csc', dtype=np.float64, order='F',\n                        copy=False, accept_large_sparse=False)\n        self.p0 = min(self.p0, X.shape[1])\n")],
 needs="an MCPRegressor fitted on narrow data and then on wide data",
 breaks="fit overwrites the parameter p0: get_params changes and later fits start from another working set",
 py='''
import sys
import numpy as np
from sparseglm.estimators import MCPRegressor
m = MCPRegressor(0.1, 30.0, verbose=False)
p = m.get_params()
m.fit(np.random.RandomState(0).randn(9, 3), np.random.RandomState(1).randn(9))
sys.exit(0 if m.get_params() == p else 1)
''')

bug(id="c26-same-data", property="C26", edits=[
 (PE, ("        if sp.issparse(X):\n            coefs = inner.fit_sparse(X.data, X.indices, X.indptr, y)", 3), "        # Nothing to do when only the display options changed\n        key = (X.data, X.shape, y.data, self.alpha, self.max_iter, self.max_epochs,\n               self.tol, self.p0, self.use_accel, self.K)\n        if getattr(self, \"_key\", None) == key:\n            return self\n        if not sp.issparse(X):\n            self._key = key\n\n        if sp.issparse(X):\n            coefs = inner.fit_sparse(X.data, X.indices, X.indptr, y)")],
 needs="an ElasticNet refitted on the same dense data after set_params(l1_ratio=...)",
 breaks="the second fit returns the first one's coefficients",
 py='''
import sys
import numpy as np
from sparseglm.estimators import ElasticNet
X = np.asfortranarray(np.random.RandomState(0).randn(20, 5)); y = X[:, 0] + np.random.RandomState(1).randn(20)
m = ElasticNet(0.3, 0.9, verbose=False).fit(X, y)
m.set_params(l1_ratio=0.1).fit(X, y)
w = ElasticNet(0.3, 0.1, verbose=False).fit(X, y).coef_
sys.exit(0 if np.array_equal(m.coef_, w) else 1)
''')

bug(id="c27-single-row", property="C27", edits=[
 ("src/datasets/mod.rs", "if multi_targets.len_of(Axis(1)) > 1 {", "if multi_targets.len_of(Axis(1)) > 1 && multi_targets.len_of(Axis(0)) > 1 {")],
 needs="user-written targets with several columns and a single sample",
 breaks="a one-row target matrix passes for a target vector: its other columns are dropped",
 rust='''
struct Y(Array2<f64>);
impl AsMultiTargets for Y {
    type Elem = f64;
    fn n_samples(&self) -> usize { self.0.nrows() }
    fn n_tasks(&self) -> usize { self.0.ncols() }
    fn as_multi_tasks(&self) -> ArrayView2<f64> { self.0.view() }
}
impl AsSingleTargets for Y {}
fn main() {
    for n in 1..4 {
        ok(Y(mat(3, n, 2)).try_single_target().is_err(), &format!("{} rows of two columns pass for a vector", n));
        ok(Y(mat(3, n, 1)).try_single_target().is_ok(), "one column is refused");
    }
}''')

bug(id="c28-singular-warning", property="C28", edits=[
 (BCD, "                if verbose {\n                    println!(\"---- Warning: Singular extrapolation matrix.\");\n                }", "                if verbose || K > n_features {\n                    println!(\"---- Warning: Singular extrapolation matrix.\");\n                }")],
 needs="a silent accelerated multi-task fit with K above the number of features whose extrapolation matrix is exactly singular",
 breaks="a fit that is not verbose prints a warning",
 rust='''
fn main() {
    if std::env::args().len() > 1 {
        // one feature, converged after the first epoch: all differences are zero
        let data = DenseDataset::from((array![[1.0], [2.0]], array![[1.0, 2.0], [3.0, 1.0]]));
        MultiTaskLasso::params().alpha(0.01).tolerance(0.0).max_iterations(2).max_epochs(20).verbose(false).fit(&data).unwrap();
        return;
    }
    let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("fit").output().unwrap();
    ok(out.stdout.is_empty() && out.stderr.is_empty(), &format!("a silent fit prints {}", String::from_utf8_lossy(&out.stdout)));
}''')

bug(id="c28-stale-violation", property="C28", edits=[
 (CD, "                        epoch, p_obj, kkt_ws_max", "                        epoch, p_obj, kkt_max.min(kkt_ws_max)")],
 needs="a verbose fit in which the violation on the working set exceeds the one at the start of the outer iteration at an epoch report",
 breaks="the reported violation is not that of the current point",
 rust='''
// a long column nearly parallel to a short one; the targets are orthogonal to it
fn data(seed: u64) -> (Array2<f64>, Array1<f64>) {
    let mut x = mat(seed, 6, 4);
    let a = x.column(0).to_owned();
    let mut y = Array1::from(rnd(seed + 5, 6));
    y = &y - &(&a * (a.dot(&y) / a.dot(&a)));
    let b = &a + &(&x.column(1) * 0.1);
    x.column_mut(1).assign(&b);
    x.column_mut(0).assign(&(&a * 100.0));
    (x, y)
}
fn main() {
    if std::env::args().len() > 1 {
        for seed in 0..200 {
            let (x, y) = data(seed);
            let s = Solver::new().tolerance(0.0).max_iterations(3).max_epochs(12).ws_start_size(4).use_acceleration(false).verbose(true);
            println!("FIT {}", seed);
            let w = s.solve(&DenseDataset::from((x.clone(), y.clone())), &mut Quadratic::new(), &MCP::new(0.05, 3.0)).unwrap();
            println!("{}", w.len());
        }
        return;
    }
    let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("fit").output().unwrap();
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    // the first epoch report of each fit is the point of eleven epochs
    let mut wrong = 0;
    for block in text.split("FIT ").skip(1) {
        let seed: u64 = block.lines().next().unwrap().parse().unwrap();
        let (x, y) = data(seed);
        let w = Solver::new().tolerance(0.0).max_iterations(1).max_epochs(11).ws_start_size(4).use_acceleration(false).verbose(false)
            .solve(&DenseDataset::from((x.clone(), y.clone())), &mut Quadratic::new(), &MCP::new(0.05, 3.0)).unwrap();
        let g = x.t().dot(&(x.dot(&w) - &y)) / 6.0;
        let ws = Array1::from(vec![0usize, 1, 2, 3]);
        let v = MCP::new(0.05, 3.0).subdiff_distance(w.view(), g.view(), ws.view()).1;
        if let Some(l) = block.lines().find(|l| l.starts_with("epoch: 10")) {
            let got: f64 = l.rsplit(' ').next().unwrap().parse().unwrap();
            if (got - v).abs() > 1e-8 { wrong += 1; }
        }
    }
    ok(wrong == 0, &format!("{} epoch reports give another violation", wrong));
}''')

bug(id="c29-nan-passes", property="C29", edits=[
 (UT, "                if x[[i, j]].abs_diff_ne(&y[[i, j]], delta) {", "                if num_traits::Float::abs(x[[i, j]] - y[[i, j]]) > delta {")],
 needs="matrices with NaN entries",
 breaks="NaN entries pass the closeness assertion",
 rust='''
fn main() {
    use sparseglm::utils::test_helpers::assert_array2d_all_close;
    std::panic::set_hook(Box::new(|_| {}));
    let (x, mut y) = (mat(3, 3, 2), mat(3, 3, 2));
    assert_array2d_all_close(x.view(), y.view(), 1e-9);
    y[[2, 1]] = f64::NAN;
    ok(std::panic::catch_unwind(|| assert_array2d_all_close(x.view(), y.view(), 1e-9)).is_err(), "NaN is close to a number");
}''')

bug(id="c15-epoch-offset", property="C15", edits=[
 (CD, "                    epoch,\n                    K,", "                    epoch + t,\n                    K,")],
 needs="a second outer iteration with acceleration",
 breaks="windows of later outer iterations start shifted: they mix rows of zeros or of the wrong epochs into the extrapolation",
 rust='''
// one sample of the second outer iteration: coordinate descent and the extrapolation of its first window, recomputed
fn obj(x: &Array2<f64>, y: &Array1<f64>, w: &Array1<f64>, a: f64) -> f64 {
    let r = y - &x.dot(w);
    r.dot(&r) / (2.0 * x.nrows() as f64) + a * w.mapv(f64::abs).sum()
}
fn epoch(x: &Array2<f64>, y: &Array1<f64>, w: &mut Array1<f64>, a: f64) {
    let n = x.nrows() as f64;
    // the order of the working set: decreasing violation, ties of non-zero coefficients in order
    for j in 0..x.ncols() {
        let c = x.column(j);
        let l = c.dot(&c) / n;
        let z = w[j] - c.dot(&(x.dot(w) - y)) / n / l;
        w[j] = z.signum() * (z.abs() - a / l).max(0.0);
    }
}
fn main() {
    let (k, a) = (3, 1e-3);
    let mut seen = 0;
    for seed in 0..40 {
        let mut x = mat(seed, 12, 5);
        for j in 1..5 {
            let c = &x.column(j) * 0.4 + &x.column(0) * 0.9;
            x.column_mut(j).assign(&c);
        }
        let y = x.dot(&arr1(&[1.0, -2.0, 3.0, -1.0, 2.0])) + &mat(seed + 500, 12, 1).column(0) * 0.1;
        let data = DenseDataset::from((x.clone(), y.clone()));
        let at = |it: usize, e: usize, acc: bool| {
            Solver::new().tolerance(0.0).max_iterations(it).max_epochs(e).K(k).use_acceleration(acc).ws_start_size(5).verbose(false)
                .solve(&data, &mut Quadratic::new(), &L1::new(a)).unwrap()
        };
        // a first outer iteration of two epochs contains no window, so its end is the start of the second one
        let e = k + 1;
        let start = at(1, e, true);
        if start.iter().any(|&v| v == 0.0) {
            continue;
        }
        let (mut w, mut rows) = (start.clone(), vec![]);
        for _ in 0..e {
            epoch(&x, &y, &mut w, a);
            rows.push(w.clone());
        }
        let u: Vec<Array1<f64>> = (0..k).map(|i| &rows[i + 1] - &rows[i]).collect();
        let c = Array2::from_shape_fn((k, k), |(i, j)| u[i].dot(&u[j]));
        let z = match solve_lin_sys(c.view(), Array1::ones(k).view()) {
            Ok(z) => z,
            Err(_) => continue,
        };
        let s = z.sum();
        let ext = (0..k).fold(Array1::zeros(5), |acc: Array1<f64>, i| acc + &rows[i] * (z[i] / s));
        // well below the plain iterate, and no coefficient changes sign
        if !(obj(&x, &y, &ext, a) < obj(&x, &y, &w, a) - 1e-5) {
            continue;
        }
        seen += 1;
        let got = at(2, e, true);
        ok(obj(&x, &y, &got, a) < obj(&x, &y, &w, a) - 1e-6, &format!("seed {}: the extrapolation of the second outer iteration is missing: {} {} {}", seed,
            obj(&x, &y, &got, a), obj(&x, &y, &w, a), obj(&x, &y, &ext, a)));
    }
    println!("{} windows", seen);
    if seen == 0 {
        println!("nothing to look at");
        std::process::exit(3);
    }
}''')

bug(id="c12-mcp-gamma-cap", property="C12", edits=[
 (SEP, ("        } else if value.abs() > g * tau {", 1), "        } else if value.abs() > F::min(g, F::cast(1e4)) * tau {")],
 needs="MCP with gamma above 1e4 (or infinite) and targets so large that a coefficient passes 1e4 thresholds",
 breaks="MCP with an infinite gamma is no longer the Lasso for large coefficients",
 rust='''
fn main() {
    let x = mat(3, 20, 6);
    let y = x.dot(&(mat(4, 6, 1).column(0).to_owned() * 1e6));
    let data = DenseDataset::from((x.clone(), y.clone()));
    let s = || Solver::new().tolerance(1e-9).max_iterations(100).max_epochs(5000).verbose(false);
    let a = s().solve(&data, &mut Quadratic::new(), &L1::new(1.0)).unwrap();
    let b = s().solve(&data, &mut Quadratic::new(), &MCP::new(1.0, f64::INFINITY)).unwrap();
    ok(gap1(&a, &b) < 1e-3, &format!("{} against {}", a, b));
}''')

bug(id="c18-never-quiet", property="C18", edits=[
 ("python/src/multi_task_elastic_net.rs", "            .verbose(verbose);", "            .verbose(verbose || max_iterations > 100);")],
 needs="MultiTaskElasticNet with verbose=False and more than 100 iterations allowed",
 breaks="the fit prints its progress although it was told not to",
 py="""
import os, sys, tempfile
import numpy as np
from sparseglm.estimators import MultiTaskElasticNet
rng = np.random.RandomState(0)
X = rng.randn(30, 8); Y = rng.randn(30, 3)
f = tempfile.TemporaryFile()
keep = os.dup(1)
os.dup2(f.fileno(), 1)
try:
    for it in (1, 50, 101, 500):
        MultiTaskElasticNet(0.01, 0.5, max_iter=it, verbose=False).fit(X, Y)
finally:
    os.dup2(keep, 1)
f.seek(0)
sys.exit(1 if f.read() else 0)
""")

bug(id="c20-high-snr", property="C20", edits=[
 (PU, "    if snr != np.inf:", "    if snr < 1e6:")],
 needs="a finite signal-to-noise ratio of a million or more",
 breaks="no noise is added although a finite ratio was requested",
 py="""
import sys
import numpy as np
from sparseglm.utils import make_correlated_data
for snr in (3, 1e3, 1e6, 1e8):
    X, y, w = make_correlated_data(50, 10, snr=snr, random_state=0)
    noise = np.linalg.norm(y - X @ w)
    if abs(np.linalg.norm(X @ w) / max(noise, 1e-300) / snr - 1) > 1e-3:
        sys.exit(1)
""")
