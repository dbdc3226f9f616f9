use harness::prelude::*;
use harness::uniq::dist;
use ndarray::{s, Array1, Array2, ArrayView1, ArrayView2, Axis};
use sparseglm::datafits::multi_task::{MultiTaskDatafit, QuadraticMultiTask};
use sparseglm::datafits::single_task::{Datafit, Logistic, Quadratic};
use sparseglm::datasets::{AsMultiTargets, AsSingleTargets, DatasetBase, DesignMatrix, DesignMatrixType};
use sparseglm::estimators::error::EstimatorError;
use sparseglm::estimators::estimators::*;
use sparseglm::estimators::hyperparams::*;
use sparseglm::estimators::traits::Fit;
use sparseglm::penalties::block_separable::{BlockL1PlusL2, MultiTaskPenalty, L21};
use sparseglm::penalties::separable::{L1PlusL2, Penalty, L1};
use sparseglm::solvers::{BCDSolver, CDSolver, Solver};

/// User-written datafits, penalties, design matrices and targets, solved by the generic solver.
struct C23;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Df {
    /// sum_i s_i c_k (y_ik - o_ik - xw_ik)^2 / 2n with sample weights s, task weights c and offsets o
    Wls,
    /// Huber loss of threshold `par`
    Huber,
    /// smooth quantile-like loss: quadratic with slope weights 1 and `par` (<= 1) on the two sides
    Expectile,
    /// squared hinge, y in {-1, 1}
    SqHinge,
    /// the crate's own quadratic (or logistic) datafit
    Own,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Pn {
    /// a |w|_1 (entrywise also for rows)
    L1,
    /// a sum w, w >= 0
    NonNeg,
    /// -b <= w <= a, value zero inside
    Box,
    /// b <= w <= b + a with b > 0: zero is infeasible
    Range,
    /// a |w - b|: zero is not a kink
    Shift,
    /// a |w|^2 / 2
    Ridge,
    /// a w+ + b w-
    Asym,
    /// a |row|_2
    Group,
    /// nothing
    Zero,
    /// the crate's own l1 / l21 or elastic net with ratio b
    OwnL1,
    OwnEN,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    pb: Problem,
    df: Df,
    par: f64,
    /// sample weights, task weights, offsets (row major n x t); used by Wls
    sw: Vec<f64>,
    tw: Vec<f64>,
    off: Vec<f64>,
    /// factor >= 1 by which the datafit overestimates its constants
    over: f64,
    pn: Pn,
    a: f64,
    b: f64,
    knobs: Knobs,
    layout: Layout,
    multi: bool,
    /// 0 the crate's matrices, 1 a reference to them, 2 a user-written design matrix
    dm: u8,
}

impl Case {
    fn model(&self) -> Model {
        let pen = if self.pn == Pn::OwnEN { Pen::EN } else { Pen::L1 };
        Model { pen, alpha: self.a, ratio: self.b, gamma: f64::INFINITY, logistic: false, multi: self.multi }
    }
    fn loss(&self, i: usize, k: usize, z: f64) -> f64 {
        let t = self.pb.t;
        let y = self.pb.y[i * t + k];
        match self.df {
            Df::Wls => {
                let r = z + self.off[i * t + k] - y;
                0.5 * self.sw[i] * self.tw[k] * r * r
            }
            Df::Own => 0.5 * (z - y) * (z - y),
            Df::Huber => {
                let r = (z - y).abs();
                if r <= self.par { 0.5 * r * r } else { self.par * (r - 0.5 * self.par) }
            }
            Df::Expectile => {
                let r = z - y;
                0.5 * r * r * if r > 0.0 { 1.0 } else { self.par }
            }
            Df::SqHinge => 0.5 * (1.0 - y * z).max(0.0).powi(2),
        }
    }
    fn dloss(&self, i: usize, k: usize, z: f64) -> f64 {
        let t = self.pb.t;
        let y = self.pb.y[i * t + k];
        match self.df {
            Df::Wls => self.sw[i] * self.tw[k] * (z + self.off[i * t + k] - y),
            Df::Own => z - y,
            Df::Huber => (z - y).clamp(-self.par, self.par),
            Df::Expectile => (z - y) * if z > y { 1.0 } else { self.par },
            Df::SqHinge => -y * (1.0 - y * z).max(0.0),
        }
    }
    fn curv(&self, i: usize) -> f64 {
        match self.df {
            Df::Wls => self.sw[i] * self.tw.iter().cloned().fold(0.0, f64::max),
            _ => 1.0,
        }
    }
    fn lip(&self, j: usize) -> f64 {
        let pb = &self.pb;
        let s: f64 = (0..pb.n).map(|i| pb.xij(i, j) * pb.xij(i, j) * self.curv(i)).sum();
        s / pb.n as f64 * if self.df == Df::Own { 1.0 } else { self.over }
    }
    fn dvalue(&self, xw: &[f64]) -> f64 {
        let t = self.pb.t;
        (0..self.pb.n * t).map(|q| self.loss(q / t, q % t, xw[q])).sum::<f64>() / self.pb.n as f64
    }
    fn grad_j(&self, xw: &[f64], j: usize) -> Vec<f64> {
        let (n, t) = (self.pb.n, self.pb.t);
        (0..t).map(|k| (0..n).map(|i| self.pb.xij(i, j) * self.dloss(i, k, xw[i * t + k])).sum::<f64>() / n as f64).collect()
    }
    fn bounds(&self) -> (f64, f64) {
        if self.pn == Pn::Range {
            (self.b, self.b + self.a)
        } else {
            (-self.b, self.a)
        }
    }
    fn pval(&self, row: &[f64]) -> f64 {
        let (lo, hi) = self.bounds();
        let (a, b) = (self.a, self.b);
        match self.pn {
            Pn::L1 => a * row.iter().map(|v| v.abs()).sum::<f64>(),
            Pn::NonNeg => {
                if row.iter().any(|&v| v < 0.0) {
                    f64::INFINITY
                } else {
                    a * row.iter().sum::<f64>()
                }
            }
            Pn::Shift => a * row.iter().map(|v| (v - b).abs()).sum::<f64>(),
            Pn::Box | Pn::Range => {
                if row.iter().all(|&v| lo <= v && v <= hi) {
                    0.0
                } else {
                    f64::INFINITY
                }
            }
            Pn::Ridge => 0.5 * a * row.iter().map(|v| v * v).sum::<f64>(),
            Pn::Asym => row.iter().map(|&v| if v > 0.0 { a * v } else { -b * v }).sum(),
            Pn::Group => a * norm(row),
            Pn::Zero => 0.0,
            Pn::OwnL1 | Pn::OwnEN => phi(&self.model(), norm(row)),
        }
    }
    fn prox(&self, v: &[f64], s: f64) -> Vec<f64> {
        let (a, b) = (self.a, self.b);
        let (lo, hi) = self.bounds();
        let each = |f: &dyn Fn(f64) -> f64| v.iter().map(|&x| f(x)).collect::<Vec<f64>>();
        match self.pn {
            Pn::L1 => each(&|x| x.signum() * (x.abs() - a * s).max(0.0)),
            Pn::NonNeg => each(&|x| (x - a * s).max(0.0)),
            Pn::Shift => each(&|x| if x > b + a * s { x - a * s } else if x < b - a * s { x + a * s } else { b }),
            Pn::Box | Pn::Range => each(&|x| x.clamp(lo, hi)),
            Pn::Ridge => each(&|x| x / (1.0 + a * s)),
            Pn::Asym => each(&|x| if x > a * s { x - a * s } else if x < -b * s { x + b * s } else { 0.0 }),
            Pn::Zero => v.to_vec(),
            Pn::Group | Pn::OwnL1 | Pn::OwnEN => {
                let r = norm(v);
                let m = self.model();
                let m = if self.pn == Pn::Group { Model { pen: Pen::L1, ..m } } else { m };
                let q = prox_norm(&m, r, s);
                each(&|x| if r > 0.0 { x / r * q } else { 0.0 })
            }
        }
    }
    /// distance of -g to the subdifferential at one row
    fn row_dist(&self, w: &[f64], g: &[f64]) -> f64 {
        let (a, b) = (self.a, self.b);
        let (lo, hi) = self.bounds();
        let each = |f: &dyn Fn(f64, f64) -> f64| norm(&w.iter().zip(g).map(|(&x, &y)| f(x, y)).collect::<Vec<f64>>());
        match self.pn {
            Pn::L1 => each(&|x, y| if x == 0.0 { (y.abs() - a).max(0.0) } else { y + a * x.signum() }),
            Pn::NonNeg => each(&|x, y| if x == 0.0 { (-y - a).max(0.0) } else if x > 0.0 { y + a } else { f64::INFINITY }),
            Pn::Shift => each(&|x, y| if x == b { (y.abs() - a).max(0.0) } else { y + a * (x - b).signum() }),
            Pn::Box | Pn::Range => each(&|x, y| {
                if x < lo || x > hi {
                    f64::INFINITY
                } else if lo == hi {
                    0.0
                } else if x == hi {
                    y.max(0.0)
                } else if x == lo {
                    (-y).max(0.0)
                } else {
                    y
                }
            }),
            Pn::Ridge => each(&|x, y| y + a * x),
            Pn::Asym => each(&|x, y| if x > 0.0 { y + a } else if x < 0.0 { y - b } else { (-y - a).max(y - b).max(0.0) }),
            Pn::Zero => norm(g),
            Pn::Group => row_dist(&Model { pen: Pen::L1, ..self.model() }, w, g),
            Pn::OwnL1 | Pn::OwnEN => row_dist(&self.model(), w, g),
        }
    }
    fn obj(&self, w: &[f64]) -> f64 {
        self.dvalue(&self.pb.xw(w)) + w.chunks(self.pb.t).map(|r| self.pval(r)).sum::<f64>()
    }
    fn worst(&self, w: &[f64]) -> f64 {
        let t = self.pb.t;
        let xw = self.pb.xw(w);
        (0..self.pb.p).map(|j| self.row_dist(&w[j * t..(j + 1) * t], &self.grad_j(&xw, j))).fold(0.0, f64::max)
    }
    /// plain cyclic descent from w: (coefficients, epochs)
    fn reference(&self, tol: f64, epochs: usize, mut w: Vec<f64>) -> (Vec<f64>, Option<usize>) {
        let (n, p, t) = (self.pb.n, self.pb.p, self.pb.t);
        let mut xw = self.pb.xw(&w);
        for e in 0..=epochs {
            if e % 5 == 0 && self.worst(&w) <= tol {
                return (w, Some(e));
            }
            for j in 0..p {
                let l = self.lip(j);
                if l == 0.0 {
                    continue;
                }
                let g = self.grad_j(&xw, j);
                let v: Vec<f64> = (0..t).map(|k| w[j * t + k] - g[k] / l).collect();
                let u = self.prox(&v, 1.0 / l);
                for k in 0..t {
                    let d = u[k] - w[j * t + k];
                    if d != 0.0 {
                        for i in 0..n {
                            xw[i * t + k] += d * self.pb.xij(i, j);
                        }
                        w[j * t + k] = u[k];
                    }
                }
            }
        }
        (w, None)
    }
}

// ---- the user's objects ----
struct UserD<'a> {
    c: &'a Case,
    lips: Option<Array1<f64>>,
}
impl UserD<'_> {
    fn init(&mut self) {
        self.lips = Some((0..self.c.pb.p).map(|j| self.c.lip(j)).collect());
    }
}
impl<DM: DesignMatrix<Elem = f64>, T: AsSingleTargets<Elem = f64>> Datafit<f64, DM, T> for UserD<'_> {
    fn initialize(&mut self, _: &DatasetBase<DM, T>) {
        self.init()
    }
    fn value(&self, _: &DatasetBase<DM, T>, xw: ArrayView1<f64>) -> f64 {
        self.c.dvalue(&xw.to_vec())
    }
    fn gradient_j(&self, _: &DatasetBase<DM, T>, xw: ArrayView1<f64>, j: usize) -> f64 {
        self.c.grad_j(&xw.to_vec(), j)[0]
    }
    fn full_grad(&self, _: &DatasetBase<DM, T>, xw: ArrayView1<f64>) -> Array1<f64> {
        let xw = xw.to_vec();
        (0..self.c.pb.p).map(|j| self.c.grad_j(&xw, j)[0]).collect()
    }
    fn step_size(&self) -> ArrayView1<'_, f64> {
        self.lips.as_ref().expect("the datafit was not initialised").view()
    }
}
impl<DM: DesignMatrix<Elem = f64>, T: AsMultiTargets<Elem = f64>> MultiTaskDatafit<f64, DM, T> for UserD<'_> {
    fn initialize(&mut self, _: &DatasetBase<DM, T>) {
        self.init()
    }
    fn value(&self, _: &DatasetBase<DM, T>, xw: ArrayView2<f64>) -> f64 {
        self.c.dvalue(&xw.iter().cloned().collect::<Vec<_>>())
    }
    fn gradient_j(&self, _: &DatasetBase<DM, T>, xw: ArrayView2<f64>, j: usize) -> Array1<f64> {
        Array1::from(self.c.grad_j(&xw.iter().cloned().collect::<Vec<_>>(), j))
    }
    fn full_grad(&self, _: &DatasetBase<DM, T>, xw: ArrayView2<f64>) -> Array2<f64> {
        let xw: Vec<f64> = xw.iter().cloned().collect();
        let v: Vec<f64> = (0..self.c.pb.p).flat_map(|j| self.c.grad_j(&xw, j)).collect();
        Array2::from_shape_vec((self.c.pb.p, self.c.pb.t), v).unwrap()
    }
    fn step_size(&self) -> ArrayView1<'_, f64> {
        self.lips.as_ref().expect("the datafit was not initialised").view()
    }
}
struct UserP<'a>(&'a Case);
impl UserP<'_> {
    fn dists(&self, w: &dyn Fn(usize) -> Vec<f64>, g: &dyn Fn(usize) -> Vec<f64>, ws: ArrayView1<usize>) -> (Array1<f64>, f64) {
        let d: Array1<f64> = ws.iter().enumerate().map(|(k, &j)| self.0.row_dist(&w(j), &g(k))).collect();
        let m = d.iter().cloned().fold(0.0, f64::max);
        (d, m)
    }
}
impl Penalty<f64> for UserP<'_> {
    fn value(&self, w: ArrayView1<f64>) -> f64 {
        w.iter().map(|&v| self.0.pval(&[v])).sum()
    }
    fn prox(&self, v: f64, step: f64) -> f64 {
        self.0.prox(&[v], step)[0]
    }
    fn subdiff_distance(&self, w: ArrayView1<f64>, grad: ArrayView1<f64>, ws: ArrayView1<usize>) -> (Array1<f64>, f64) {
        self.dists(&|j| vec![w[j]], &|k| vec![grad[k]], ws)
    }
}
impl MultiTaskPenalty<f64> for UserP<'_> {
    fn value(&self, w: ArrayView2<f64>) -> f64 {
        w.rows().into_iter().map(|r| self.0.pval(&r.to_vec())).sum()
    }
    fn prox(&self, v: ArrayView1<f64>, step: f64) -> Array1<f64> {
        Array1::from(self.0.prox(&v.to_vec(), step))
    }
    fn subdiff_distance(&self, w: ArrayView2<f64>, grad: ArrayView2<f64>, ws: ArrayView1<usize>) -> (Array1<f64>, f64) {
        self.dists(&|j| w.row(j).to_vec(), &|k| grad.row(k).to_vec(), ws)
    }
}
/// a design matrix kept as a list of columns
struct UserX {
    cols: Vec<Vec<f64>>,
}
impl DesignMatrix for UserX {
    type Elem = f64;
    fn n_features(&self) -> usize {
        self.cols.len()
    }
    fn matrix_type(&self) -> DesignMatrixType {
        DesignMatrixType::Dense
    }
    fn compute_extrapolated_fit(&self, ws: ArrayView1<usize>, w: &Array1<f64>, n: usize) -> Array1<f64> {
        let mut o = Array1::zeros(n);
        for &j in ws {
            for i in 0..n {
                o[i] += self.cols[j][i] * w[j];
            }
        }
        o
    }
    fn compute_extrapolated_fit_multi_task(&self, ws: ArrayView1<usize>, w: &Array2<f64>, n: usize, t: usize) -> Array2<f64> {
        let mut o = Array2::zeros((n, t));
        for &j in ws {
            for i in 0..n {
                for k in 0..t {
                    o[[i, k]] += self.cols[j][i] * w[[j, k]];
                }
            }
        }
        o
    }
    fn update_model_fit(&self, xw: &mut Array1<f64>, d: f64, j: usize) {
        for i in 0..xw.len() {
            xw[i] += d * self.cols[j][i];
        }
    }
    fn update_model_fit_multi_task(&self, xw: &mut Array2<f64>, d: ArrayView1<f64>, j: usize) {
        for i in 0..xw.nrows() {
            for k in 0..xw.ncols() {
                xw[[i, k]] += d[k] * self.cols[j][i];
            }
        }
    }
}
struct UserY(Array1<f64>);
impl AsMultiTargets for UserY {
    type Elem = f64;
    fn n_samples(&self) -> usize {
        self.0.len()
    }
    fn n_tasks(&self) -> usize {
        1
    }
    fn as_multi_tasks(&self) -> ArrayView2<'_, f64> {
        self.0.view().insert_axis(Axis(1))
    }
}
impl AsSingleTargets for UserY {}

struct Run<'a> {
    c: &'a Case,
    s: Solver<f64>,
}
type Res = Result<Vec<f64>, String>;
impl Run<'_> {
    fn user1<DM: DesignMatrix<Elem = f64>, T: AsSingleTargets<Elem = f64>>(&self, ds: &DatasetBase<DM, T>) -> Res {
        let c = self.c;
        let mut d = UserD { c, lips: None };
        match c.pn {
            Pn::OwnL1 => self.s.solve(ds, &mut d, &L1::new(c.a)),
            Pn::OwnEN => self.s.solve(ds, &mut d, &L1PlusL2::new(c.a, c.b)),
            _ => self.s.solve(ds, &mut d, &UserP(c)),
        }
        .map(|w| w.to_vec())
        .map_err(|e| e.to_string())
    }
    fn user2<DM: DesignMatrix<Elem = f64>, T: AsMultiTargets<Elem = f64>>(&self, ds: &DatasetBase<DM, T>) -> Res {
        let c = self.c;
        let mut d = UserD { c, lips: None };
        match c.pn {
            Pn::OwnL1 => self.s.solve_multi_task(ds, &mut d, &L21::new(c.a)),
            Pn::OwnEN => self.s.solve_multi_task(ds, &mut d, &BlockL1PlusL2::new(c.a, c.b)),
            _ => self.s.solve_multi_task(ds, &mut d, &UserP(c)),
        }
        .map(|w| w.iter().cloned().collect())
        .map_err(|e| e.to_string())
    }
    fn cols(&self) -> UserX {
        UserX { cols: (0..self.c.pb.p).map(|j| (0..self.c.pb.n).map(|i| self.c.pb.xij(i, j)).collect()).collect() }
    }
}
impl Visit1<f64> for Run<'_> {
    type Out = Res;
    fn visit<DM, T>(self, ds: &DatasetBase<DM, T>) -> Self::Out
    where
        DM: DesignMatrix<Elem = f64>,
        T: AsSingleTargets<Elem = f64>,
        Quadratic<f64>: Datafit<f64, DM, T>,
        Logistic<f64>: Datafit<f64, DM, T>,
        LassoParams<f64>: Fit<DM, T, EstimatorError, Object = Lasso<f64>>,
        ElasticNetParams<f64>: Fit<DM, T, EstimatorError, Object = ElasticNet<f64>>,
        MCParams<f64>: Fit<DM, T, EstimatorError, Object = MCPEstimator<f64>>,
    {
        let c = self.c;
        if c.df == Df::Own {
            return self.s.solve(ds, &mut Quadratic::new(), &UserP(c)).map(|w| w.to_vec()).map_err(|e| e.to_string());
        }
        let y = || UserY(ds.targets().as_multi_tasks().slice(s![.., 0]).to_owned());
        match c.dm {
            0 => self.user1(ds),
            1 => self.user1(&DatasetBase::new(ds.design_matrix(), y())),
            _ => self.user1(&DatasetBase::new(self.cols(), y())),
        }
    }
}
impl Visit2<f64> for Run<'_> {
    type Out = Res;
    fn visit<DM, T>(self, ds: &DatasetBase<DM, T>) -> Self::Out
    where
        DM: DesignMatrix<Elem = f64>,
        T: AsMultiTargets<Elem = f64>,
        QuadraticMultiTask<f64>: MultiTaskDatafit<f64, DM, T>,
        MultiTaskLassoParams<f64>: Fit<DM, T, EstimatorError, Object = MultiTaskLasso<f64>>,
        MultiTaskElasticNetParams<f64>: Fit<DM, T, EstimatorError, Object = MultiTaskElasticNet<f64>>,
        BlockMCParams<f64>: Fit<DM, T, EstimatorError, Object = BlockMCPEstimator<f64>>,
    {
        let c = self.c;
        if c.df == Df::Own {
            return self.s.solve_multi_task(ds, &mut QuadraticMultiTask::new(), &UserP(c)).map(|w| w.iter().cloned().collect()).map_err(|e| e.to_string());
        }
        match c.dm {
            0 => self.user2(ds),
            1 => self.user2(&DatasetBase::new(ds.design_matrix(), ds.targets())),
            _ => self.user2(&DatasetBase::new(self.cols(), ds.targets())),
        }
    }
}

impl Property for C23 {
    type Case = Case;
    const ID: &'static str = "C23";
    fn rule(&self) -> String {
        "random problem with a user-written datafit (weighted least squares with offsets and task weights, Huber, expectile, squared hinge; exact or over-estimated constants) and penalty (l1, non-negative, box around or away from zero, shifted l1, ridge, asymmetric, group, none) or one built-in piece, on the crate's matrices, references to them or a user-written design matrix; non-trivial = plain descent converges within 1000 epochs (so the solver has to) and the solution is non-zero".into()
    }
    fn gen(&self, g: &mut G) -> Case {
        let multi = g.bool(0.45);
        let df = g.pick(&[Df::Wls, Df::Wls, Df::Huber, Df::Expectile, Df::SqHinge, Df::Own]);
        let mut s = if multi { Shape::multi() } else { Shape::single() };
        (s.max_n, s.max_p, s.max_t, s.large, s.tail) = (25, 30, s.max_t.min(4), 0.003, [1, 1, 1, 1, 0, 2]);
        if df == Df::SqHinge && !multi {
            s.target = 2;
        }
        let mut pb = gen_problem(g, s);
        if df == Df::SqHinge {
            pb.y.iter_mut().for_each(|v| *v = if *v > 0.0 { 1.0 } else { -1.0 });
        }
        let ny = norm(&pb.y) / ((pb.n * pb.t) as f64).sqrt();
        let ny = if ny > 0.0 { ny } else { 1.0 };
        let knobs = Knobs { max_iter: 100, max_epochs: 1500, ..gen_knobs(g, &pb, false) };
        let mut c = Case {
            df,
            par: match df {
                Df::Huber => ny * g.log_range(0.05, 3.0),
                Df::Expectile => g.range(0.1, 1.0),
                _ => 0.0,
            },
            sw: (0..pb.n).map(|_| if g.bool(0.1) { 0.0 } else { g.log_range(0.1, 4.0) }).collect(),
            tw: (0..pb.t).map(|_| if g.bool(0.3) { 1.0 } else { g.log_range(0.2, 2.0) }).collect(),
            off: (0..pb.n * pb.t).map(|_| if g.bool(0.3) { ny * g.normal() } else { 0.0 }).collect(),
            over: g.pick(&[1.0, 1.0, 1.5, 3.0]),
            pn: g.pick(&[Pn::L1, Pn::NonNeg, Pn::Box, Pn::Range, Pn::Shift, Pn::Shift, Pn::Ridge, Pn::Asym, Pn::Group, Pn::Zero, Pn::OwnL1, Pn::OwnEN]),
            a: 0.0,
            b: 0.0,
            knobs,
            layout: Layout::gen(g),
            multi,
            dm: g.int(0, 2) as u8,
            pb,
        };
        if c.df == Df::Own && matches!(c.pn, Pn::OwnL1 | Pn::OwnEN) {
            c.pn = Pn::L1;
        }
        if !multi && c.pn == Pn::Group {
            c.pn = Pn::L1;
        }
        // exactly zero gradients at zero: no target at all, or features that only live where the
        // target is zero
        let shifted = matches!(c.pn, Pn::Range | Pn::Shift);
        if c.df != Df::SqHinge && g.bool(if shifted { 0.2 } else { 0.04 }) {
            let t = c.pb.t;
            if g.bool(0.4) {
                c.pb.y = vec![0.0; c.pb.y.len()];
                c.off = vec![0.0; c.off.len()];
            } else {
                for i in 0..c.pb.n {
                    if g.bool(0.4) {
                        c.pb.y[i * t..(i + 1) * t].fill(0.0);
                        c.off[i * t..(i + 1) * t].fill(0.0);
                    }
                }
                for j in 0..c.pb.p {
                    if g.bool(0.4) {
                        for i in 0..c.pb.n {
                            if c.pb.y[i * t..(i + 1) * t].iter().chain(&c.off[i * t..(i + 1) * t]).any(|&v| v != 0.0) {
                                let q = i * c.pb.p + j;
                                c.pb.x[q] = 0.0;
                            }
                        }
                    }
                }
            }
        }
        // penalty sizes relative to the gradient at zero / to the coefficients
        let z = vec![0.0; c.pb.n * c.pb.t];
        let gmax = (0..c.pb.p).map(|j| norm(&c.grad_j(&z, j))).fold(0.0, f64::max);
        let lmax = (0..c.pb.p).map(|j| c.lip(j)).fold(0.0, f64::max);
        let gmax = if gmax == 0.0 && shifted { ny * lmax.sqrt() } else { gmax };
        let wmax = if lmax > 0.0 { gmax / lmax } else { 1.0 };
        let (a, b) = (g.log_range(0.01, 1.2), g.log_range(0.01, 1.2));
        (c.a, c.b) = match c.pn {
            Pn::Box => (wmax * a * 3.0, if g.bool(0.2) { 0.0 } else { wmax * b }),
            Pn::Range => (if g.bool(0.2) { 0.0 } else { wmax * a }, wmax * b),
            Pn::Shift => (gmax * a, wmax * b * g.sign()),
            Pn::Ridge => (lmax * a, 0.0),
            Pn::OwnEN => (gmax * a, g.range(0.0, 1.0)),
            _ => (gmax * a, gmax * b),
        };
        c
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v: Vec<Case> = vec![];
        // drop features, tasks and samples
        let (n, p, t) = (c.pb.n, c.pb.p, c.pb.t);
        for d in 0..p {
            if p > 1 {
                let keep: Vec<usize> = (0..p).filter(|&j| j != d).collect();
                v.push(Case { pb: c.pb.keep_cols(&keep), ..c.clone() });
            }
        }
        for d in 0..n {
            if n > 1 {
                let keep: Vec<usize> = (0..n).filter(|&i| i != d).collect();
                let off = keep.iter().flat_map(|&i| c.off[i * t..(i + 1) * t].to_vec()).collect();
                v.push(Case { pb: c.pb.keep_rows(&keep), sw: keep.iter().map(|&i| c.sw[i]).collect(), off, ..c.clone() });
            }
        }
        for d in 0..t {
            if t > 1 {
                let keep: Vec<usize> = (0..t).filter(|&k| k != d).collect();
                let off = (0..n).flat_map(|i| keep.iter().map(move |&k| (i, k))).map(|(i, k)| c.off[i * t + k]).collect();
                v.push(Case { pb: c.pb.keep_tasks(&keep), tw: keep.iter().map(|&k| c.tw[k]).collect(), off, ..c.clone() });
            }
        }
        for layout in c.layout.shrink() {
            v.push(Case { layout, ..c.clone() });
        }
        for knobs in shrink_knobs(&c.knobs) {
            v.push(Case { knobs: Knobs { max_iter: c.knobs.max_iter, max_epochs: c.knobs.max_epochs, ..knobs }, ..c.clone() });
        }
        if c.dm != 0 {
            v.push(Case { dm: 0, ..c.clone() });
        }
        if c.over != 1.0 {
            v.push(Case { over: 1.0, ..c.clone() });
        }
        for ones in [c.sw.iter().any(|&x| x != 1.0), c.tw.iter().any(|&x| x != 1.0), c.off.iter().any(|&x| x != 0.0)].iter().enumerate() {
            if *ones.1 {
                let mut d = c.clone();
                match ones.0 {
                    0 => d.sw = vec![1.0; n],
                    1 => d.tw = vec![1.0; t],
                    _ => d.off = vec![0.0; n * t],
                }
                v.push(d);
            }
        }
        for q in [1.0, 10.0, 100.0] {
            let x: Vec<f64> = c.pb.x.iter().map(|v| (v * q).round() / q).collect();
            if x != c.pb.x {
                v.push(Case { pb: Problem { x, ..c.pb.clone() }, ..c.clone() });
            }
            let y: Vec<f64> = c.pb.y.iter().map(|v| (v * q).round() / q).collect();
            if y != c.pb.y && c.df != Df::SqHinge {
                v.push(Case { pb: Problem { y, ..c.pb.clone() }, ..c.clone() });
            }
        }
        v
    }
    fn check(&self, c: &Case) -> Outcome {
        let pb = &c.pb;
        let tol = c.knobs.tol;
        let (wref, ep) = c.reference(tol * 0.5, REF_EPOCHS, vec![0.0; pb.p * pb.t]);
        let knobs = if ep.is_some() { c.knobs } else { Knobs { max_iter: 5, max_epochs: 60, ..c.knobs } };
        let run = Run { c, s: solver::<f64>(&knobs) };
        let xs = XStore::<f64>::build(pb, c.layout.x, c.layout.seed);
        let w = if c.multi {
            let one = pb.t == 1 && c.layout.seed % 2 == 1;
            dispatch2(&xs, &YStore::<f64>::build(pb, c.layout.y, one), run)?
        } else {
            dispatch1(&xs, &YStore::<f64>::build(pb, c.layout.y, true), run)?
        };
        if w.len() != pb.p * pb.t {
            return Err(format!("{} coefficients", w.len()));
        }
        if let Some(v) = w.iter().find(|v| !v.is_finite()) {
            return Err(format!("non-finite coefficient {}", v));
        }
        for j in 0..pb.p {
            if c.lip(j) == 0.0 && w[j * pb.t..(j + 1) * pb.t].iter().any(|&v| v != 0.0) {
                return Err(format!("feature {} has a zero constant but a non-zero coefficient", j));
            }
        }
        let z = vec![0.0; w.len()];
        let (o, o0) = (c.obj(&w), c.obj(&z));
        if !(o <= o0 * (1.0 + 1e-9)) {
            return Err(format!("objective {:e} above {:e} at zero", o, o0));
        }
        let nnz = w.iter().filter(|&&v| v != 0.0).count();
        if let Some(_ep) = ep {
            // rounding of gradients, with the weights and offsets of the datafit
            let amp = 1.0 + c.sw.iter().chain(&c.tw).cloned().fold(0.0, f64::max).powi(2);
            let yo = Problem { y: pb.y.iter().zip(&c.off).map(|(a, b)| a.abs() + b.abs()).collect(), ..pb.clone() };
            let m = Model { pen: Pen::EN, alpha: c.a + if matches!(c.pn, Pn::Shift | Pn::Range) { 0.0 } else { c.b }, ..c.model() };
            let sl = slack(&yo, &m, &w, f64::EPSILON) * amp;
            let v = c.worst(&w);
            if !(v <= tol * (1.0 + 1e-6) + sl) {
                // a slow direction met from here only: the budget is legitimately exhausted
                if c.reference(tol * 0.5, 2 * REF_EPOCHS, w).1.is_none() {
                    return Ok(Info::new(false).label("budget exhausted"));
                }
                return Err(format!(
                    "optimality violation {:e} exceeds tolerance {:e} (plain coordinate descent converges in {} epochs)",
                    v, tol, ep.unwrap()
                ));
            }
            let oref = c.obj(&wref);
            let bound = (tol * (1.0 + 1e-6) + sl) * dist(&w, &wref) * (pb.p as f64).sqrt() + 1e-11 * (o.abs() + oref.abs() + if o0.is_finite() { o0.abs() } else { 0.0 });
            if !(o <= oref + bound) {
                return Err(format!("objective {:e} above the reference minimum {:e} by more than {:e}", o, oref, bound));
            }
        }
        Ok(Info::new(ep.is_some() && nnz > 0)
            .label(if ep.is_some() { "judged" } else { "screened" })
            .label(format!("datafit {:?}{}", c.df, if c.multi { " multi" } else { "" }))
            .label(format!("penalty {:?}{}", c.pn, if c.multi { " multi" } else { "" }))
            .label(if c.df == Df::Own { "crate's matrices" } else { ["crate's matrices", "references", "user's matrix"][c.dm as usize] })
            .label_if(c.over > 1.0 && c.df != Df::Own, "over-estimated constants")
            .label_if(c.layout.x.sparse(), "sparse"))
    }
    fn cases(&self) -> (usize, usize) {
        (400_000, 20_000_000)
    }
}
fn main() {
    run(C23)
}
