use harness::prelude::*;
use ndarray::{Array1, Array2};
use sparseglm::datafits::multi_task::{MultiTaskDatafit, QuadraticMultiTask};
use sparseglm::datafits::single_task::{Datafit, Logistic, Quadratic};
use sparseglm::datasets::{AsMultiTargets, AsSingleTargets, DatasetBase, DesignMatrix};
use sparseglm::estimators::error::EstimatorError;
use sparseglm::estimators::estimators::*;
use sparseglm::estimators::hyperparams::*;
use sparseglm::estimators::traits::Fit;
use sparseglm::penalties::block_separable::{BlockL1PlusL2, BlockMCP, L21};
use sparseglm::penalties::separable::{L1PlusL2, L05, L1, MCP};
use sparseglm::solvers::{BCDSolver, CDSolver, Solver};

/// Histories over a pool of datasets and a pool of reused objects.
struct C17;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ds {
    pb: Problem,
    layout: Layout,
    /// 0 regression, 1 multi-task, 2 labels
    kind: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// fit estimator `est` on dataset `ds`, `times` times on the same dataset object
    Fit { est: usize, ds: usize, times: usize },
    /// replace an estimator by its clone, dropping the original
    CloneEst { est: usize },
    /// copy one estimator over another
    CopyEst { from: usize, to: usize },
    /// change alpha through the setter
    SetAlpha { est: usize, alpha: f64 },
    SetTol { est: usize, tol: f64 },
    /// solve with a reused solver, datafit and penalty
    Solve { sol: usize, pen: usize, ds: usize },
    CloneSol { sol: usize },
    /// initialise a reused datafit on a dataset and look at its quantities
    Init { ds: usize },
    /// concurrent fits with shared estimators and shared data
    Par { jobs: Vec<(usize, usize)> },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ds: Vec<Ds>,
    /// single-task estimators, then multi-task estimators
    ests: Vec<(Model, Knobs)>,
    sols: Vec<Knobs>,
    pens: Vec<Model>,
    ops: Vec<Op>,
}

#[derive(Clone)]
enum Est {
    L(LassoParams<f64>),
    E(ElasticNetParams<f64>),
    M(MCParams<f64>),
    BL(MultiTaskLassoParams<f64>),
    BE(MultiTaskElasticNetParams<f64>),
    BM(BlockMCParams<f64>),
}
macro_rules! knobs {
    ($P:expr, $m:expr, $k:expr) => {
        $P.alpha($m.alpha)
            .ws_start_size($k.ws)
            .K($k.k)
            .use_acceleration($k.accel)
            .max_iterations($k.max_iter)
            .max_epochs($k.max_epochs)
            .tolerance($k.tol)
    };
}
macro_rules! each {
    ($e:expr, $x:ident, $body:expr) => {
        match $e {
            Est::L($x) => Est::L($body),
            Est::E($x) => Est::E($body),
            Est::M($x) => Est::M($body),
            Est::BL($x) => Est::BL($body),
            Est::BE($x) => Est::BE($body),
            Est::BM($x) => Est::BM($body),
        }
    };
}
impl Est {
    fn new(m: &Model, k: &Knobs) -> Est {
        match (m.multi, m.pen) {
            (false, Pen::L1) => Est::L(knobs!(Lasso::params(), m, k)),
            (false, Pen::EN) => Est::E(knobs!(ElasticNet::params(), m, k).l1_ratio(m.ratio)),
            (false, _) => Est::M(knobs!(MCPEstimator::params(), m, k).gamma(m.gamma)),
            (true, Pen::L1) => Est::BL(knobs!(MultiTaskLasso::params(), m, k)),
            (true, Pen::EN) => Est::BE(knobs!(MultiTaskElasticNet::params(), m, k).l1_ratio(m.ratio)),
            (true, _) => Est::BM(knobs!(BlockMCPEstimator::params(), m, k).gamma(m.gamma)),
        }
    }
}

struct FitEst<'a>(&'a Est, usize);
impl Visit1<f64> for FitEst<'_> {
    type Out = Result<Vec<Vec<f64>>, String>;
    fn visit<DM, T>(self, ds: &DatasetBase<DM, T>) -> Self::Out
    where
        DM: DesignMatrix<Elem = f64>,
        T: AsSingleTargets<Elem = f64>,
        Quadratic<f64>: Datafit<f64, DM, T>,
        Logistic<f64>: Datafit<f64, DM, T>,
        LassoParams<f64>: Fit<DM, T, EstimatorError, Object = Lasso<f64>>,
        ElasticNetParams<f64>: Fit<DM, T, EstimatorError, Object = ElasticNet<f64>>,
        MCParams<f64>: Fit<DM, T, EstimatorError, Object = MCPEstimator<f64>>,
    {
        (0..self.1)
            .map(|_| {
                match self.0 {
                    Est::L(p) => p.fit(ds).map(|e| e.coefficients().to_vec()),
                    Est::E(p) => p.fit(ds).map(|e| e.coefficients().to_vec()),
                    Est::M(p) => p.fit(ds).map(|e| e.coefficients().to_vec()),
                    _ => unreachable!(),
                }
                .map_err(|e| e.to_string())
            })
            .collect()
    }
}
impl Visit2<f64> for FitEst<'_> {
    type Out = Result<Vec<Vec<f64>>, String>;
    fn visit<DM, T>(self, ds: &DatasetBase<DM, T>) -> Self::Out
    where
        DM: DesignMatrix<Elem = f64>,
        T: AsMultiTargets<Elem = f64>,
        QuadraticMultiTask<f64>: MultiTaskDatafit<f64, DM, T>,
        MultiTaskLassoParams<f64>: Fit<DM, T, EstimatorError, Object = MultiTaskLasso<f64>>,
        MultiTaskElasticNetParams<f64>: Fit<DM, T, EstimatorError, Object = MultiTaskElasticNet<f64>>,
        BlockMCParams<f64>: Fit<DM, T, EstimatorError, Object = BlockMCPEstimator<f64>>,
    {
        (0..self.1)
            .map(|_| {
                match self.0 {
                    Est::BL(p) => p.fit(ds).map(|e| e.coefficients().iter().cloned().collect()),
                    Est::BE(p) => p.fit(ds).map(|e| e.coefficients().iter().cloned().collect()),
                    Est::BM(p) => p.fit(ds).map(|e| e.coefficients().iter().cloned().collect()),
                    _ => unreachable!(),
                }
                .map_err(|e| e.to_string())
            })
            .collect()
    }
}

struct Datafits {
    q: Quadratic<f64>,
    l: Logistic<f64>,
    m: QuadraticMultiTask<f64>,
}
enum PenObj {
    L1(L1<f64>),
    EN(L1PlusL2<f64>),
    MCP(MCP<f64>),
    L05(L05<f64>),
    BL1(L21<f64>),
    BEN(BlockL1PlusL2<f64>),
    BMCP(BlockMCP<f64>),
}
impl PenObj {
    fn new(m: &Model) -> PenObj {
        match (m.multi, m.pen) {
            (false, Pen::L1) => PenObj::L1(L1::new(m.alpha)),
            (false, Pen::EN) => PenObj::EN(L1PlusL2::new(m.alpha, m.ratio)),
            (false, Pen::MCP) => PenObj::MCP(MCP::new(m.alpha, m.gamma)),
            (false, Pen::L05) => PenObj::L05(L05::new(m.alpha)),
            (true, Pen::L1) => PenObj::BL1(L21::new(m.alpha)),
            (true, Pen::EN) => PenObj::BEN(BlockL1PlusL2::new(m.alpha, m.ratio)),
            (true, _) => PenObj::BMCP(BlockMCP::new(m.alpha, m.gamma)),
        }
    }
}
struct SolveWith<'a> {
    s: &'a Solver<f64>,
    d: &'a mut Datafits,
    p: &'a PenObj,
    logistic: bool,
}
impl Visit1<f64> for SolveWith<'_> {
    type Out = Result<Vec<f64>, String>;
    fn visit<DM, T>(self, ds: &DatasetBase<DM, T>) -> Self::Out
    where
        DM: DesignMatrix<Elem = f64>,
        T: AsSingleTargets<Elem = f64>,
        Quadratic<f64>: Datafit<f64, DM, T>,
        Logistic<f64>: Datafit<f64, DM, T>,
        LassoParams<f64>: Fit<DM, T, EstimatorError, Object = Lasso<f64>>,
        ElasticNetParams<f64>: Fit<DM, T, EstimatorError, Object = ElasticNet<f64>>,
        MCParams<f64>: Fit<DM, T, EstimatorError, Object = MCPEstimator<f64>>,
    {
        let s = self.s;
        let w = if self.logistic {
            let d = &mut self.d.l;
            match self.p {
                PenObj::L1(p) => s.solve(ds, d, p),
                PenObj::EN(p) => s.solve(ds, d, p),
                PenObj::MCP(p) => s.solve(ds, d, p),
                PenObj::L05(p) => s.solve(ds, d, p),
                _ => unreachable!(),
            }
        } else {
            let d = &mut self.d.q;
            match self.p {
                PenObj::L1(p) => s.solve(ds, d, p),
                PenObj::EN(p) => s.solve(ds, d, p),
                PenObj::MCP(p) => s.solve(ds, d, p),
                PenObj::L05(p) => s.solve(ds, d, p),
                _ => unreachable!(),
            }
        };
        w.map(|w| w.to_vec()).map_err(|e| e.to_string())
    }
}
impl Visit2<f64> for SolveWith<'_> {
    type Out = Result<Vec<f64>, String>;
    fn visit<DM, T>(self, ds: &DatasetBase<DM, T>) -> Self::Out
    where
        DM: DesignMatrix<Elem = f64>,
        T: AsMultiTargets<Elem = f64>,
        QuadraticMultiTask<f64>: MultiTaskDatafit<f64, DM, T>,
        MultiTaskLassoParams<f64>: Fit<DM, T, EstimatorError, Object = MultiTaskLasso<f64>>,
        MultiTaskElasticNetParams<f64>: Fit<DM, T, EstimatorError, Object = MultiTaskElasticNet<f64>>,
        BlockMCParams<f64>: Fit<DM, T, EstimatorError, Object = BlockMCPEstimator<f64>>,
    {
        let (s, d) = (self.s, &mut self.d.m);
        match self.p {
            PenObj::BL1(p) => s.solve_multi_task(ds, d, p),
            PenObj::BEN(p) => s.solve_multi_task(ds, d, p),
            PenObj::BMCP(p) => s.solve_multi_task(ds, d, p),
            _ => unreachable!(),
        }
        .map(|w| w.iter().cloned().collect())
        .map_err(|e| e.to_string())
    }
}
/// initialise reused and fresh datafits on one dataset; both report their quantities at XW = Y / 2
struct InitBoth<'a> {
    d: &'a mut Datafits,
    logistic: bool,
}
fn quant1<DM: DesignMatrix<Elem = f64>, T: AsSingleTargets<Elem = f64>, D: Datafit<f64, DM, T>>(ds: &DatasetBase<DM, T>, d: &mut D) -> Vec<f64> {
    d.initialize(ds);
    let y = ds.targets().try_single_target().unwrap();
    let xw: Array1<f64> = y.mapv(|v| 0.5 * v);
    let mut v = d.step_size().to_vec();
    v.push(d.value(ds, xw.view()));
    v.extend((0..ds.design_matrix().n_features()).map(|j| d.gradient_j(ds, xw.view(), j)));
    v.extend(d.full_grad(ds, xw.view()));
    v
}
impl Visit1<f64> for InitBoth<'_> {
    type Out = (Vec<f64>, Vec<f64>);
    fn visit<DM, T>(self, ds: &DatasetBase<DM, T>) -> Self::Out
    where
        DM: DesignMatrix<Elem = f64>,
        T: AsSingleTargets<Elem = f64>,
        Quadratic<f64>: Datafit<f64, DM, T>,
        Logistic<f64>: Datafit<f64, DM, T>,
        LassoParams<f64>: Fit<DM, T, EstimatorError, Object = Lasso<f64>>,
        ElasticNetParams<f64>: Fit<DM, T, EstimatorError, Object = ElasticNet<f64>>,
        MCParams<f64>: Fit<DM, T, EstimatorError, Object = MCPEstimator<f64>>,
    {
        if self.logistic {
            (quant1(ds, &mut self.d.l), quant1(ds, &mut Logistic::new()))
        } else {
            (quant1(ds, &mut self.d.q), quant1(ds, &mut Quadratic::new()))
        }
    }
}
impl Visit2<f64> for InitBoth<'_> {
    type Out = (Vec<f64>, Vec<f64>);
    fn visit<DM, T>(self, ds: &DatasetBase<DM, T>) -> Self::Out
    where
        DM: DesignMatrix<Elem = f64>,
        T: AsMultiTargets<Elem = f64>,
        QuadraticMultiTask<f64>: MultiTaskDatafit<f64, DM, T>,
        MultiTaskLassoParams<f64>: Fit<DM, T, EstimatorError, Object = MultiTaskLasso<f64>>,
        MultiTaskElasticNetParams<f64>: Fit<DM, T, EstimatorError, Object = MultiTaskElasticNet<f64>>,
        BlockMCParams<f64>: Fit<DM, T, EstimatorError, Object = BlockMCPEstimator<f64>>,
    {
        let go = |d: &mut QuadraticMultiTask<f64>| {
            d.initialize(ds);
            let xw: Array2<f64> = ds.targets().as_multi_tasks().mapv(|v| 0.5 * v);
            let mut v = d.step_size().to_vec();
            v.push(d.value(ds, xw.view()));
            for j in 0..ds.design_matrix().n_features() {
                v.extend(d.gradient_j(ds, xw.view(), j));
            }
            v.extend(d.full_grad(ds, xw.view()));
            v
        };
        (go(&mut self.d.m), go(&mut QuadraticMultiTask::new()))
    }
}

fn bits(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| x.to_bits()).collect()
}
fn same(what: &str, a: &[f64], b: &[f64]) -> Result<(), String> {
    if bits(a) == bits(b) {
        return Ok(());
    }
    let d = a.iter().zip(b).map(|(x, y)| (x - y).abs()).fold(0.0, f64::max);
    Err(format!("{}: differs from a fresh object's result ({} against {} values, largest difference {:e})", what, a.len(), b.len(), d))
}

/// one resolved step of a history: what a fresh object has to be given
enum Fresh {
    None,
    One(Model, Knobs, usize, Api),
    Many(Vec<(Model, Knobs, usize)>),
}

impl Case {
    fn fits(&self, m: &Model, ds: usize) -> bool {
        (self.ds[ds].kind == 1) == m.multi
    }
    /// the model a step amounts to, for histories where the parameters of estimators change
    fn resolve(&self) -> Vec<Fresh> {
        let mut st = self.ests.clone();
        self.ops
            .iter()
            .map(|o| match o {
                Op::Fit { est, ds, .. } => Fresh::One(st[*est].0, st[*est].1, *ds, Api::Estimator),
                Op::CopyEst { from, to } => {
                    st[*to] = st[*from];
                    Fresh::None
                }
                Op::SetAlpha { est, alpha } => {
                    st[*est].0.alpha = *alpha;
                    Fresh::None
                }
                Op::SetTol { est, tol } => {
                    st[*est].1.tol = *tol;
                    Fresh::None
                }
                Op::Solve { sol, pen, ds } => {
                    let m = Model { logistic: self.ds[*ds].kind == 2, ..self.pens[*pen] };
                    Fresh::One(m, self.sols[*sol], *ds, Api::Solver)
                }
                Op::Par { jobs } => Fresh::Many(jobs.iter().map(|&(e, d)| (st[e].0, st[e].1, d)).collect()),
                _ => Fresh::None,
            })
            .collect()
    }
    fn valid(&self) -> bool {
        let mut st: Vec<bool> = self.ests.iter().map(|e| e.0.multi).collect();
        self.ops.iter().all(|o| match o {
            Op::Fit { est, ds, .. } => st[*est] == (self.ds[*ds].kind == 1),
            Op::CopyEst { from, to } => {
                st[*to] = st[*from];
                true
            }
            Op::Solve { pen, ds, .. } => self.fits(&self.pens[*pen], *ds),
            Op::Par { jobs } => jobs.iter().all(|&(e, d)| st[e] == (self.ds[d].kind == 1)),
            _ => true,
        })
    }
}

fn gen_knobs17(g: &mut G, p: usize) -> Knobs {
    Knobs {
        ws: g.pick(&[1, 2, 10, p, 2 * p]),
        k: g.pick(&[1, 2, 3, 5, 8]),
        accel: g.bool(0.8),
        max_iter: g.pick(&[1, 2, 5, 20]),
        max_epochs: g.pick(&[1, 4, 12, 50]),
        tol: g.pick(&[0.0, 1e-9, 1e-4]),
        verbose: false,
    }
}

impl Property for C17 {
    type Case = Case;
    const ID: &'static str = "C17";
    fn rule(&self) -> String {
        "random history (fits with reused, cloned, overwritten and modified estimators; solves with reused solvers, datafits and penalties; direct re-initialisation of datafits; concurrent fits on shared data) over a pool of datasets of different shapes, kinds and storage; every result compared bitwise with a fresh object's, computed beforehand; non-trivial = an object is used on two different datasets and some result is non-zero".into()
    }
    fn gen(&self, g: &mut G) -> Case {
        let nd = g.int(2, 5);
        let base_p = g.log_int(1, 14);
        let ds: Vec<Ds> = (0..nd)
            .map(|_| {
                let kind = g.int(0, 2) as u8;
                let mut s = match kind {
                    0 => Shape::single(),
                    1 => Shape::multi(),
                    _ => Shape::labels(),
                };
                (s.max_n, s.max_p, s.large, s.tail) = (20, 20, 0.004, [1, 1, 1, 1, 0, 2]);
                s.max_t = s.max_t.min(4);
                // same number of features more often than not: the dangerous case for stale state
                if g.bool(0.5) {
                    (s.min_p, s.max_p) = (base_p, base_p);
                }
                Ds { pb: gen_problem(g, s), layout: Layout::gen(g), kind }
            })
            .collect();
        let p = ds[0].pb.p;
        let ests: Vec<(Model, Knobs)> = (0..g.int(2, 6))
            .map(|_| {
                let d = &ds[g.int(0, nd - 1)];
                let multi = d.kind == 1;
                (gen_model(g, &d.pb, &[Pen::L1, Pen::EN, Pen::MCP], false, multi), gen_knobs17(g, p))
            })
            .collect();
        let sols = (0..g.int(1, 2)).map(|_| gen_knobs17(g, p)).collect::<Vec<_>>();
        let pens: Vec<Model> = (0..g.int(1, 4))
            .map(|_| {
                let d = &ds[g.int(0, nd - 1)];
                let multi = d.kind == 1;
                let pens: &[Pen] = if multi { &[Pen::L1, Pen::EN, Pen::MCP] } else { &[Pen::L1, Pen::EN, Pen::MCP, Pen::L05] };
                gen_model(g, &d.pb, pens, false, multi)
            })
            .collect();
        let mut st: Vec<bool> = ests.iter().map(|e| e.0.multi).collect();
        let mut ops = vec![];
        for _ in 0..g.int(3, 14) {
            let e = g.int(0, ests.len() - 1);
            let pick_ds = |g: &mut G, multi: bool| {
                let c: Vec<usize> = (0..nd).filter(|&i| (ds[i].kind == 1) == multi).collect();
                if c.is_empty() {
                    None
                } else {
                    Some(g.pick(&c))
                }
            };
            match g.weighted(&[6, 1, 1, 1, 1, 8, 1, 4, 1]) {
                0 => {
                    if let Some(d) = pick_ds(g, st[e]) {
                        ops.push(Op::Fit { est: e, ds: d, times: g.int(1, 2) })
                    }
                }
                1 => ops.push(Op::CloneEst { est: e }),
                2 => {
                    let to = g.int(0, ests.len() - 1);
                    st[to] = st[e];
                    ops.push(Op::CopyEst { from: e, to })
                }
                3 => {
                    let d = g.int(0, nd - 1);
                    let alpha = null_alpha(&ds[d].pb, false) * g.pick(&[0.01, 0.1, 0.5]);
                    ops.push(Op::SetAlpha { est: e, alpha })
                }
                4 => ops.push(Op::SetTol { est: e, tol: g.pick(&[0.0, 1e-9, 1e-6, 1e-3]) }),
                5 => {
                    let pen = g.int(0, pens.len() - 1);
                    if let Some(d) = pick_ds(g, pens[pen].multi) {
                        ops.push(Op::Solve { sol: g.int(0, sols.len() - 1), pen, ds: d })
                    }
                }
                6 => ops.push(Op::CloneSol { sol: g.int(0, sols.len() - 1) }),
                7 => ops.push(Op::Init { ds: g.int(0, nd - 1) }),
                _ => {
                    let mut jobs = vec![];
                    for _ in 0..g.int(2, 5) {
                        let e = g.int(0, ests.len() - 1);
                        if let Some(d) = pick_ds(g, st[e]) {
                            jobs.push((e, d))
                        }
                    }
                    ops.push(Op::Par { jobs })
                }
            }
        }
        let c = Case { ds, ests, sols, pens, ops };
        debug_assert!(c.valid());
        c
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        for i in 0..c.ops.len() {
            let mut d = c.clone();
            d.ops.remove(i);
            v.push(d);
        }
        for (i, o) in c.ops.iter().enumerate() {
            match o {
                Op::Par { jobs } => {
                    for k in 0..jobs.len() {
                        let mut d = c.clone();
                        let mut j = jobs.clone();
                        j.remove(k);
                        d.ops[i] = Op::Par { jobs: j };
                        v.push(d);
                    }
                }
                Op::Fit { est, ds, times } if *times > 1 => {
                    let mut d = c.clone();
                    d.ops[i] = Op::Fit { est: *est, ds: *ds, times: 1 };
                    v.push(d);
                }
                _ => {}
            }
        }
        for i in 0..c.ds.len() {
            for pb in shrink_problem(&c.ds[i].pb) {
                let mut d = c.clone();
                d.ds[i].pb = pb;
                v.push(d);
            }
            for l in c.ds[i].layout.shrink() {
                let mut d = c.clone();
                d.ds[i].layout = l;
                v.push(d);
            }
        }
        for i in 0..c.ests.len() {
            for m in shrink_model(&c.ests[i].0) {
                let mut d = c.clone();
                d.ests[i].0 = m;
                v.push(d);
            }
        }
        v.retain(|d| d.valid());
        v
    }
    fn check(&self, c: &Case) -> Outcome {
        let stores: Vec<_> = c
            .ds
            .iter()
            .map(|d| {
                let one = d.kind != 1 || (d.pb.t == 1 && d.layout.seed % 2 == 1);
                (XStore::<f64>::build(&d.pb, d.layout.x, d.layout.seed), YStore::<f64>::build(&d.pb, d.layout.y, one))
            })
            .collect();
        let prints: Vec<_> = stores.iter().map(|s| (s.0.fingerprint(), s.1.fingerprint())).collect();
        // what fresh objects return, before any object is reused
        let fresh = c.resolve();
        let go = |m: &Model, k: &Knobs, d: usize, api: Api| fit_stores(&stores[d].0, &stores[d].1, &c.ds[d].pb, m, k, api);
        let mut expected: Vec<Vec<Vec<f64>>> = vec![];
        for f in &fresh {
            expected.push(match f {
                Fresh::None => vec![],
                Fresh::One(m, k, d, api) => vec![go(m, k, *d, *api)?],
                Fresh::Many(js) => js.iter().map(|(m, k, d)| go(m, k, *d, Api::Estimator)).collect::<Result<_, _>>()?,
            });
        }
        // the history
        let mut ests: Vec<Est> = c.ests.iter().map(|(m, k)| Est::new(m, k)).collect();
        let mut sols: Vec<Solver<f64>> = c.sols.iter().map(solver::<f64>).collect();
        let pens: Vec<PenObj> = c.pens.iter().map(PenObj::new).collect();
        let mut dfs = Datafits { q: Quadratic::new(), l: Logistic::new(), m: QuadraticMultiTask::new() };
        let fit_est = |e: &Est, d: usize, times: usize| {
            let (x, y) = &stores[d];
            if c.ds[d].kind == 1 {
                dispatch2(x, y, FitEst(e, times))
            } else {
                dispatch1(x, y, FitEst(e, times))
            }
        };
        for (i, o) in c.ops.iter().enumerate() {
            let what = format!("step {} ({:?})", i, o);
            match o {
                Op::Fit { est, ds, times } => {
                    for w in fit_est(&ests[*est], *ds, *times)? {
                        same(&what, &w, &expected[i][0])?;
                    }
                }
                Op::CloneEst { est } => {
                    let e = ests[*est].clone();
                    ests[*est] = e;
                }
                Op::CopyEst { from, to } => ests[*to] = ests[*from].clone(),
                Op::SetAlpha { est, alpha } => ests[*est] = each!(ests[*est].clone(), p, p.alpha(*alpha)),
                Op::SetTol { est, tol } => ests[*est] = each!(ests[*est].clone(), p, p.tolerance(*tol)),
                Op::Solve { sol, pen, ds } => {
                    let (x, y) = &stores[*ds];
                    let v = SolveWith { s: &sols[*sol], d: &mut dfs, p: &pens[*pen], logistic: c.ds[*ds].kind == 2 };
                    let w = if c.ds[*ds].kind == 1 { dispatch2(x, y, v) } else { dispatch1(x, y, v) }?;
                    same(&what, &w, &expected[i][0])?;
                }
                Op::CloneSol { sol } => {
                    let s = sols[*sol].clone();
                    sols[*sol] = s;
                }
                Op::Init { ds } => {
                    let (x, y) = &stores[*ds];
                    let v = InitBoth { d: &mut dfs, logistic: c.ds[*ds].kind == 2 };
                    let (a, b) = if c.ds[*ds].kind == 1 { dispatch2(x, y, v) } else { dispatch1(x, y, v) };
                    same(&what, &a, &b)?;
                }
                Op::Par { jobs } => {
                    let out: Vec<Result<Vec<Vec<f64>>, String>> = std::thread::scope(|s| {
                        let hs: Vec<_> = jobs.iter().map(|&(e, d)| { let (e, f) = (&ests[e], &fit_est); s.spawn(move || f(e, d, 2)) }).collect();
                        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a concurrent fit panicked".into()))).collect()
                    });
                    for (k, r) in out.into_iter().enumerate() {
                        for w in r? {
                            same(&what, &w, &expected[i][k])?;
                        }
                    }
                }
            }
        }
        for (s, f) in stores.iter().zip(&prints) {
            if s.0.fingerprint() != f.0 || s.1.fingerprint() != f.1 {
                return Err("a fit modified its dataset".into());
            }
        }
        // rule
        let mut used: std::collections::HashMap<u8, std::collections::HashSet<usize>> = Default::default();
        for o in &c.ops {
            match o {
                Op::Solve { ds, .. } | Op::Init { ds } => {
                    used.entry(c.ds[*ds].kind).or_default().insert(*ds);
                }
                Op::Fit { est, ds, .. } => {
                    used.entry(10 + *est as u8).or_default().insert(*ds);
                }
                _ => {}
            }
        }
        let reused = used.values().any(|s| s.len() > 1);
        let moved = expected.iter().flatten().flatten().any(|&v| v != 0.0);
        let df_reused = used.iter().any(|(k, s)| *k < 10 && s.len() > 1);
        Ok(Info::new(reused && moved)
            .label_if(df_reused, "datafit on two datasets")
            .label_if(df_reused && {
                used.iter().any(|(k, s)| *k < 10 && s.iter().any(|&a| s.iter().any(|&b| a != b && c.ds[a].pb.p == c.ds[b].pb.p)))
            }, "datafit on two datasets with equally many features")
            .label_if(c.ops.iter().any(|o| matches!(o, Op::Par { .. })), "concurrent fits")
            .label_if(c.ops.iter().any(|o| matches!(o, Op::CopyEst { .. } | Op::CloneEst { .. } | Op::CloneSol { .. })), "clones")
            .label_if(c.ops.iter().any(|o| matches!(o, Op::SetAlpha { .. } | Op::SetTol { .. })), "setters between fits"))
    }
    fn cases(&self) -> (usize, usize) {
        (100_000, 5_000_000)
    }
}
fn main() {
    run(C17)
}
