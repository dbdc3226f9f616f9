//! Builds datasets in every storage layout and calls the public entry points of the crate.
use crate::problem::*;
use crate::rng::Lcg;
use ndarray::{s, Array1, Array2, ArrayView1, ArrayView2, ShapeBuilder};
use serde::{Deserialize, Serialize};
use sparseglm::datafits::multi_task::{MultiTaskDatafit, QuadraticMultiTask};
use sparseglm::datafits::single_task::{Datafit, Logistic, Quadratic};
use sparseglm::datasets::csc_array::CSCArray;
use sparseglm::datasets::{AsMultiTargets, AsSingleTargets, DatasetBase, DesignMatrix};
use sparseglm::estimators::error::EstimatorError;
use sparseglm::estimators::estimators::*;
use sparseglm::estimators::hyperparams::*;
use sparseglm::estimators::traits::Fit;
use sparseglm::penalties::block_separable::{BlockL1PlusL2, BlockMCP, L21};
use sparseglm::penalties::separable::{L1PlusL2, L05, L1, MCP};
use sparseglm::solvers::{BCDSolver, CDSolver, Solver};
use sparseglm::Float;

pub fn c<F: Float>(x: f64) -> F {
    F::cast(x)
}

/// Backing storage of a design matrix in a given layout.
pub enum XStore<F> {
    Dense(Array2<F>, XKind),
    Csc {
        data: Array1<F>,
        indices: Array1<i32>,
        indptr: Array1<i32>,
        strided: bool,
    },
}
pub enum YStore<F> {
    One(Array1<F>, YKind),
    Two(Array2<F>, YKind),
}

const JUNK: f64 = 7.25e3;

/// a larger array of which every |r|-th row and |k|-th column, possibly backwards, is the wanted one
fn carve<F: Float>(n: usize, p: usize, code: u8, at: &dyn Fn(usize, usize) -> F) -> Array2<F> {
    let (f, _, r, k) = cut(code);
    let (ra, ka) = (r.unsigned_abs(), k.unsigned_abs());
    let dim = (n * ra, p * ka);
    let mut a = if f { Array2::from_elem(dim.f(), c(JUNK)) } else { Array2::from_elem(dim, c(JUNK)) };
    for i in 0..n {
        for j in 0..p {
            let q = (if r > 0 { i * ra } else { dim.0 - 1 - i * ra }, if k > 0 { j * ka } else { dim.1 - 1 - j * ka });
            a[q] = at(i, j);
        }
    }
    a
}
fn carved<F>(a: &Array2<F>, code: u8) -> ArrayView2<'_, F> {
    let (_, _, r, k) = cut(code);
    a.slice(s![..;r, ..;k])
}
/// the same, owned: an array that keeps the unused elements and the strides
fn carved_owned<F: Clone>(a: &Array2<F>, code: u8) -> Array2<F> {
    let (_, _, r, k) = cut(code);
    a.clone().slice_move(s![..;r, ..;k])
}

impl<F: Float> XStore<F> {
    pub fn build(pb: &Problem, kind: XKind, seed: u64) -> XStore<F> {
        let (n, p) = (pb.n, pb.p);
        let at = |i: usize, j: usize| c::<F>(pb.xij(i, j));
        match kind {
            XKind::OwnedC | XKind::ViewC => {
                XStore::Dense(Array2::from_shape_fn((n, p), |(i, j)| at(i, j)), kind)
            }
            XKind::OwnedF | XKind::ViewF => {
                let mut a = Array2::<F>::zeros((n, p).f());
                for i in 0..n {
                    for j in 0..p {
                        a[[i, j]] = at(i, j);
                    }
                }
                XStore::Dense(a, kind)
            }
            XKind::Strided => {
                let mut a = Array2::<F>::from_elem((2 * n, 3 * p), c(JUNK));
                for i in 0..n {
                    for j in 0..p {
                        a[[2 * i, 3 * j]] = at(i, j);
                    }
                }
                XStore::Dense(a, kind)
            }
            XKind::Reversed => XStore::Dense(
                Array2::from_shape_fn((n, p), |(i, j)| at(n - 1 - i, p - 1 - j)),
                kind,
            ),
            XKind::Cut(code) => XStore::Dense(carve(n, p, code, &at), kind),
            XKind::Inner => {
                let mut a = Array2::<F>::from_elem((n + 3, p + 2), c(JUNK));
                for i in 0..n {
                    for j in 0..p {
                        a[[i + 2, j + 1]] = at(i, j);
                    }
                }
                XStore::Dense(a, kind)
            }
            _ => {
                let mut rng = Lcg(seed);
                let (mut data, mut idx, mut ptr) = (vec![], vec![], vec![0i32]);
                for j in 0..p {
                    let mut col: Vec<(i32, f64)> = vec![];
                    for i in 0..n {
                        let v = pb.xij(i, j);
                        if v != 0.0 || (kind == XKind::CscZeros && rng.below(3) == 0) {
                            col.push((i as i32, v));
                        }
                    }
                    if kind != XKind::Csc && kind != XKind::CscZeros || (kind == XKind::CscZeros && seed % 2 == 1) {
                        for k in (1..col.len()).rev() {
                            let l = rng.below(k + 1);
                            col.swap(k, l);
                        }
                    }
                    for (i, v) in col {
                        data.push(c::<F>(v));
                        idx.push(i);
                    }
                    ptr.push(data.len() as i32);
                }
                if kind == XKind::CscStrided {
                    let m = data.len();
                    let tail = rng.below(4);
                    let mut d = Array1::<F>::from_elem(2 * (m + tail) + 1, c(JUNK));
                    let mut ix = Array1::<i32>::from_elem(3 * (m + tail) + 1, 0);
                    for k in 0..m {
                        d[2 * k] = data[k];
                        ix[3 * k] = idx[k];
                    }
                    XStore::Csc {
                        data: d.slice(s![..2 * (m + tail)]).to_owned(),
                        indices: ix.slice(s![..3 * (m + tail)]).to_owned(),
                        indptr: Array1::from(ptr),
                        strided: true,
                    }
                } else {
                    XStore::Csc {
                        data: Array1::from(data),
                        indices: Array1::from(idx),
                        indptr: Array1::from(ptr),
                        strided: false,
                    }
                }
            }
        }
    }
    pub fn dense_view(&self) -> ArrayView2<'_, F> {
        match self {
            XStore::Dense(a, XKind::Strided) => a.slice(s![..;2, ..;3]),
            XStore::Dense(a, XKind::Reversed) => a.slice(s![..;-1, ..;-1]),
            XStore::Dense(a, XKind::Cut(code)) => carved(a, *code),
            XStore::Dense(a, XKind::Inner) => {
                let (r, k) = a.dim();
                a.slice(s![2..r - 1, 1..k - 1])
            }
            XStore::Dense(a, _) => a.view(),
            _ => panic!("not dense"),
        }
    }
    pub fn csc(&self) -> CSCArray<'_, F> {
        match self {
            XStore::Csc {
                data,
                indices,
                indptr,
                strided,
            } => {
                if *strided {
                    CSCArray::new(
                        data.slice(s![..;2]),
                        indices.slice(s![..;3]),
                        indptr.view(),
                    )
                } else {
                    CSCArray::new(data.view(), indices.view(), indptr.view())
                }
            }
            _ => panic!("not sparse"),
        }
    }
    /// bit-level copy, to check that inputs are never modified
    pub fn fingerprint(&self) -> Vec<u64> {
        let f = |v: &F| v.to_f64().unwrap().to_bits();
        match self {
            XStore::Dense(a, _) => a.iter().map(f).collect(),
            XStore::Csc {
                data,
                indices,
                indptr,
                ..
            } => data
                .iter()
                .map(f)
                .chain(indices.iter().map(|&v| v as u64))
                .chain(indptr.iter().map(|&v| v as u64))
                .collect(),
        }
    }
}

impl<F: Float> YStore<F> {
    /// 1-D targets when `one`, else 2-D
    pub fn build(pb: &Problem, kind: YKind, one: bool) -> YStore<F> {
        let (n, t) = (pb.n, pb.t);
        let at = |i: usize, k: usize| c::<F>(pb.yit(i, k));
        if one {
            let a = match kind {
                YKind::Strided => {
                    let mut a = Array1::from_elem(3 * n, c(JUNK));
                    for i in 0..n {
                        a[3 * i] = at(i, 0);
                    }
                    a
                }
                YKind::Reversed => Array1::from_shape_fn(n, |i| at(n - 1 - i, 0)),
                YKind::Cut(code) => {
                    let s = cut(code).2;
                    let (u, len) = (s.unsigned_abs(), n * s.unsigned_abs());
                    let mut a = Array1::from_elem(len, c(JUNK));
                    for i in 0..n {
                        a[if s > 0 { i * u } else { len - 1 - i * u }] = at(i, 0);
                    }
                    a
                }
                _ => Array1::from_shape_fn(n, |i| at(i, 0)),
            };
            YStore::One(a, kind)
        } else {
            let a = match kind {
                YKind::Strided => {
                    let mut a = Array2::from_elem((2 * n, 2 * t), c(JUNK));
                    for i in 0..n {
                        for k in 0..t {
                            a[[2 * i, 2 * k]] = at(i, k);
                        }
                    }
                    a
                }
                YKind::Reversed => {
                    Array2::from_shape_fn((n, t), |(i, k)| at(n - 1 - i, t - 1 - k))
                }
                YKind::Cut(code) => carve(n, t, code, &at),
                YKind::OwnedF => {
                    let mut a = Array2::<F>::zeros((n, t).f());
                    for i in 0..n {
                        for k in 0..t {
                            a[[i, k]] = at(i, k);
                        }
                    }
                    a
                }
                _ => Array2::from_shape_fn((n, t), |(i, k)| at(i, k)),
            };
            YStore::Two(a, kind)
        }
    }
    pub fn view1(&self) -> ArrayView1<'_, F> {
        match self {
            YStore::One(a, YKind::Strided) => a.slice(s![..;3]),
            YStore::One(a, YKind::Reversed) => a.slice(s![..;-1]),
            YStore::One(a, YKind::Cut(code)) => a.slice(s![..;cut(*code).2]),
            YStore::One(a, _) => a.view(),
            _ => panic!("2-D targets"),
        }
    }
    pub fn view2(&self) -> ArrayView2<'_, F> {
        match self {
            YStore::Two(a, YKind::Strided) => a.slice(s![..;2, ..;2]),
            YStore::Two(a, YKind::Reversed) => a.slice(s![..;-1, ..;-1]),
            YStore::Two(a, YKind::Cut(code)) => carved(a, *code),
            YStore::Two(a, _) => a.view(),
            _ => panic!("1-D targets"),
        }
    }
    pub fn fingerprint(&self) -> Vec<u64> {
        let f = |v: &F| v.to_f64().unwrap().to_bits();
        match self {
            YStore::One(a, _) => a.iter().map(f).collect(),
            YStore::Two(a, _) => a.iter().map(f).collect(),
        }
    }
}

/// Something done with a single-task dataset of any storage type.
pub trait Visit1<F: Float> {
    type Out;
    fn visit<DM, T>(self, ds: &DatasetBase<DM, T>) -> Self::Out
    where
        DM: DesignMatrix<Elem = F>,
        T: AsSingleTargets<Elem = F>,
        Quadratic<F>: Datafit<F, DM, T>,
        Logistic<F>: Datafit<F, DM, T>,
        LassoParams<F>: Fit<DM, T, EstimatorError, Object = Lasso<F>>,
        ElasticNetParams<F>: Fit<DM, T, EstimatorError, Object = ElasticNet<F>>,
        MCParams<F>: Fit<DM, T, EstimatorError, Object = MCPEstimator<F>>;
}
/// Something done with a multi-task dataset of any storage type.
pub trait Visit2<F: Float> {
    type Out;
    fn visit<DM, T>(self, ds: &DatasetBase<DM, T>) -> Self::Out
    where
        DM: DesignMatrix<Elem = F>,
        T: AsMultiTargets<Elem = F>,
        QuadraticMultiTask<F>: MultiTaskDatafit<F, DM, T>,
        MultiTaskLassoParams<F>: Fit<DM, T, EstimatorError, Object = MultiTaskLasso<F>>,
        MultiTaskElasticNetParams<F>: Fit<DM, T, EstimatorError, Object = MultiTaskElasticNet<F>>,
        BlockMCParams<F>: Fit<DM, T, EstimatorError, Object = BlockMCPEstimator<F>>;
}

impl<F: Float> XStore<F> {
    /// the matrix as an owned array, for the kinds handed over that way
    pub fn owned(&self) -> Option<Array2<F>> {
        match self {
            XStore::Dense(a, XKind::OwnedC | XKind::OwnedF) => Some(a.clone()),
            XStore::Dense(a, XKind::Cut(code)) if cut(*code).1 => Some(carved_owned(a, *code)),
            _ => None,
        }
    }
}
impl<F: Float> YStore<F> {
    pub fn owned1(&self) -> Option<Array1<F>> {
        match self {
            YStore::One(a, YKind::OwnedC | YKind::OwnedF) => Some(a.clone()),
            YStore::One(a, YKind::Cut(code)) if cut(*code).1 => Some(a.clone().slice_move(s![..;cut(*code).2])),
            _ => None,
        }
    }
    pub fn owned2(&self) -> Option<Array2<F>> {
        match self {
            YStore::Two(a, YKind::OwnedC | YKind::OwnedF) => Some(a.clone()),
            YStore::Two(a, YKind::Cut(code)) if cut(*code).1 => Some(carved_owned(a, *code)),
            _ => None,
        }
    }
}

pub fn dispatch1<F: Float + 'static, V: Visit1<F>>(xs: &XStore<F>, ys: &YStore<F>, v: V) -> V::Out {
    match (xs, xs.owned(), ys.owned1()) {
        (_, Some(x), Some(y)) => v.visit(&DatasetBase::from((x, y))),
        (_, Some(x), None) => v.visit(&DatasetBase::from((x, ys.view1()))),
        (XStore::Dense(..), None, Some(y)) => v.visit(&DatasetBase::from((xs.dense_view(), y))),
        (XStore::Dense(..), None, None) => v.visit(&DatasetBase::from((xs.dense_view(), ys.view1()))),
        (_, None, Some(y)) => v.visit(&DatasetBase::from((xs.csc(), y))),
        (_, None, None) => v.visit(&DatasetBase::from((xs.csc(), ys.view1()))),
    }
}

pub fn dispatch2<F: Float + 'static, V: Visit2<F>>(xs: &XStore<F>, ys: &YStore<F>, v: V) -> V::Out {
    match ys {
        YStore::One(..) => match xs {
            // a 1-D target is a legal single-column multi-task target
            XStore::Dense(..) => v.visit(&DatasetBase::from((xs.dense_view(), ys.view1()))),
            XStore::Csc { .. } => v.visit(&DatasetBase::from((xs.csc(), ys.view1()))),
        },
        YStore::Two(..) => match (xs, xs.owned(), ys.owned2()) {
            (_, Some(x), Some(y)) => v.visit(&DatasetBase::from((x, y))),
            (_, Some(x), None) => v.visit(&DatasetBase::from((x, ys.view2()))),
            (XStore::Dense(..), None, Some(y)) => v.visit(&DatasetBase::from((xs.dense_view(), y))),
            (XStore::Dense(..), None, None) => v.visit(&DatasetBase::from((xs.dense_view(), ys.view2()))),
            (_, None, Some(y)) => v.visit(&DatasetBase::from((xs.csc(), y))),
            (_, None, None) => v.visit(&DatasetBase::from((xs.csc(), ys.view2()))),
        },
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Api {
    Estimator,
    Solver,
}

pub fn solver<F: Float>(k: &Knobs) -> Solver<F> {
    Solver::new()
        .ws_start_size(k.ws)
        .K(k.k)
        .use_acceleration(k.accel)
        .max_iterations(k.max_iter)
        .max_epochs(k.max_epochs)
        .tolerance(c(k.tol))
        .verbose(k.verbose)
}

macro_rules! params {
    ($P:expr, $m:expr, $k:expr) => {
        $P.alpha(c($m.alpha))
            .ws_start_size($k.ws)
            .K($k.k)
            .use_acceleration($k.accel)
            .max_iterations($k.max_iter)
            .max_epochs($k.max_epochs)
            .tolerance(c($k.tol))
            .verbose($k.verbose)
    };
}

struct Fit1<'a> {
    m: &'a Model,
    k: &'a Knobs,
    api: Api,
}
impl<F: Float + 'static> Visit1<F> for Fit1<'_> {
    type Out = Result<Array1<F>, String>;
    fn visit<DM, T>(self, ds: &DatasetBase<DM, T>) -> Self::Out
    where
        DM: DesignMatrix<Elem = F>,
        T: AsSingleTargets<Elem = F>,
        Quadratic<F>: Datafit<F, DM, T>,
        Logistic<F>: Datafit<F, DM, T>,
        LassoParams<F>: Fit<DM, T, EstimatorError, Object = Lasso<F>>,
        ElasticNetParams<F>: Fit<DM, T, EstimatorError, Object = ElasticNet<F>>,
        MCParams<F>: Fit<DM, T, EstimatorError, Object = MCPEstimator<F>>,
    {
        let (m, k) = (self.m, self.k);
        if self.api == Api::Estimator && !m.logistic && m.pen != Pen::L05 {
            match m.pen {
                Pen::L1 => params!(Lasso::<F>::params(), m, k)
                    .fit(ds)
                    .map(|e| e.coefficients().to_owned()),
                Pen::EN => params!(ElasticNet::<F>::params(), m, k)
                    .l1_ratio(c(m.ratio))
                    .fit(ds)
                    .map(|e| e.coefficients().to_owned()),
                _ => params!(MCPEstimator::<F>::params(), m, k)
                    .gamma(c(m.gamma))
                    .fit(ds)
                    .map(|e| e.coefficients().to_owned()),
            }
            .map_err(|e| format!("fit error: {}", e))
        } else {
            let s = solver::<F>(k);
            fn go<F: Float, DM, T, DF>(
                ds: &DatasetBase<DM, T>,
                df: &mut DF,
                m: &Model,
                s: &Solver<F>,
            ) -> Result<Array1<F>, std::fmt::Error>
            where
                DM: DesignMatrix<Elem = F>,
                T: AsSingleTargets<Elem = F>,
                DF: Datafit<F, DM, T>,
            {
                match m.pen {
                    Pen::L1 => s.solve(ds, df, &L1::new(c(m.alpha))),
                    Pen::EN => s.solve(ds, df, &L1PlusL2::new(c(m.alpha), c(m.ratio))),
                    Pen::MCP => s.solve(ds, df, &MCP::new(c(m.alpha), c(m.gamma))),
                    Pen::L05 => s.solve(ds, df, &L05::new(c(m.alpha))),
                }
            }
            if m.logistic {
                go(ds, &mut Logistic::new(), m, &s)
            } else {
                go(ds, &mut Quadratic::new(), m, &s)
            }
            .map_err(|e| format!("solve error: {}", e))
        }
    }
}

struct Fit2<'a> {
    m: &'a Model,
    k: &'a Knobs,
    api: Api,
}
impl<F: Float + 'static> Visit2<F> for Fit2<'_> {
    type Out = Result<Array2<F>, String>;
    fn visit<DM, T>(self, ds: &DatasetBase<DM, T>) -> Self::Out
    where
        DM: DesignMatrix<Elem = F>,
        T: AsMultiTargets<Elem = F>,
        QuadraticMultiTask<F>: MultiTaskDatafit<F, DM, T>,
        MultiTaskLassoParams<F>: Fit<DM, T, EstimatorError, Object = MultiTaskLasso<F>>,
        MultiTaskElasticNetParams<F>: Fit<DM, T, EstimatorError, Object = MultiTaskElasticNet<F>>,
        BlockMCParams<F>: Fit<DM, T, EstimatorError, Object = BlockMCPEstimator<F>>,
    {
        let (m, k) = (self.m, self.k);
        if self.api == Api::Estimator {
            match m.pen {
                Pen::L1 => params!(MultiTaskLasso::<F>::params(), m, k)
                    .fit(ds)
                    .map(|e| e.coefficients().to_owned()),
                Pen::EN => params!(MultiTaskElasticNet::<F>::params(), m, k)
                    .l1_ratio(c(m.ratio))
                    .fit(ds)
                    .map(|e| e.coefficients().to_owned()),
                Pen::MCP => params!(BlockMCPEstimator::<F>::params(), m, k)
                    .gamma(c(m.gamma))
                    .fit(ds)
                    .map(|e| e.coefficients().to_owned()),
                Pen::L05 => unreachable!(),
            }
            .map_err(|e| format!("fit error: {}", e))
        } else {
            let s = solver::<F>(k);
            let mut df = QuadraticMultiTask::new();
            match m.pen {
                Pen::L1 => s.solve_multi_task(ds, &mut df, &L21::new(c(m.alpha))),
                Pen::EN => {
                    s.solve_multi_task(ds, &mut df, &BlockL1PlusL2::new(c(m.alpha), c(m.ratio)))
                }
                Pen::MCP => s.solve_multi_task(ds, &mut df, &BlockMCP::new(c(m.alpha), c(m.gamma))),
                Pen::L05 => unreachable!(),
            }
            .map_err(|e| format!("solve error: {}", e))
        }
    }
}

/// Fits in precision F; returns row-major p x t coefficients as f64.
pub fn fit_t<F: Float + 'static>(
    pb: &Problem,
    m: &Model,
    k: &Knobs,
    lay: &Layout,
    api: Api,
) -> Result<Vec<f64>, String> {
    let xs = XStore::<F>::build(pb, lay.x, lay.seed);
    // single-column multi-task targets are sometimes given as 1-D
    let one = !m.multi || (pb.t == 1 && lay.seed % 2 == 1);
    let ys = YStore::<F>::build(pb, lay.y, one);
    fit_stores(&xs, &ys, pb, m, k, api)
}

pub fn fit_stores<F: Float + 'static>(
    xs: &XStore<F>,
    ys: &YStore<F>,
    pb: &Problem,
    m: &Model,
    k: &Knobs,
    api: Api,
) -> Result<Vec<f64>, String> {
    let f = |v: &F| v.to_f64().unwrap();
    let w: Vec<f64> = if m.multi {
        let w = dispatch2(xs, ys, Fit2 { m, k, api })?;
        if w.dim() != (pb.p, pb.t) {
            return Err(format!(
                "coefficients have shape {:?}, expected {:?}",
                w.dim(),
                (pb.p, pb.t)
            ));
        }
        w.iter().map(f).collect()
    } else {
        let w = dispatch1(xs, ys, Fit1 { m, k, api })?;
        if w.len() != pb.p {
            return Err(format!(
                "coefficients have length {}, expected {}",
                w.len(),
                pb.p
            ));
        }
        w.iter().map(f).collect()
    };
    Ok(w)
}

pub fn fit(
    pb: &Problem,
    m: &Model,
    k: &Knobs,
    lay: &Layout,
    api: Api,
) -> Result<Vec<f64>, String> {
    fit_t::<f64>(pb, m, k, lay, api)
}
