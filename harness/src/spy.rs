//! User-side datafit and penalty wrappers that record every request the solver makes.
use crate::fit::*;
use crate::problem::*;
use ndarray::{Array1, Array2, ArrayView1, ArrayView2};
use sparseglm::datafits::multi_task::{MultiTaskDatafit, QuadraticMultiTask};
use sparseglm::datafits::single_task::{Datafit, Logistic, Quadratic};
use sparseglm::datasets::{AsMultiTargets, AsSingleTargets, DatasetBase, DesignMatrix};
use sparseglm::estimators::error::EstimatorError;
use sparseglm::estimators::estimators::*;
use sparseglm::estimators::hyperparams::*;
use sparseglm::estimators::traits::Fit;
use sparseglm::penalties::block_separable::{BlockL1PlusL2, BlockMCP, MultiTaskPenalty, L21};
use sparseglm::penalties::separable::{L1PlusL2, Penalty, L05, L1, MCP};
use sparseglm::solvers::{BCDSolver, CDSolver};
use std::cell::RefCell;

/// All matrices are row major.
#[derive(Clone, Debug)]
pub enum Event {
    Init,
    /// datafit value at a prediction
    Fit { xw: Vec<f64>, out: f64 },
    /// coordinate gradient
    Grad { j: usize, xw: Vec<f64>, out: Vec<f64> },
    /// penalty value
    Pen { w: Vec<f64>, out: f64 },
    Prox { v: Vec<f64>, step: f64, out: Vec<f64> },
    /// optimality distances
    Dist { w: Vec<f64>, ws: Vec<usize>, grad: Vec<f64>, out: Vec<f64>, max: f64 },
}
pub type Log = RefCell<Vec<Event>>;

struct SpyD<'a, D> {
    d: D,
    log: &'a Log,
}
struct SpyP<'a, P> {
    p: P,
    log: &'a Log,
}

impl<DM, T, D> Datafit<f64, DM, T> for SpyD<'_, D>
where
    DM: DesignMatrix<Elem = f64>,
    T: AsSingleTargets<Elem = f64>,
    D: Datafit<f64, DM, T>,
{
    fn initialize(&mut self, ds: &DatasetBase<DM, T>) {
        self.log.borrow_mut().push(Event::Init);
        self.d.initialize(ds)
    }
    fn value(&self, ds: &DatasetBase<DM, T>, xw: ArrayView1<f64>) -> f64 {
        let out = self.d.value(ds, xw);
        self.log.borrow_mut().push(Event::Fit { xw: xw.to_vec(), out });
        out
    }
    fn gradient_j(&self, ds: &DatasetBase<DM, T>, xw: ArrayView1<f64>, j: usize) -> f64 {
        let out = self.d.gradient_j(ds, xw, j);
        self.log.borrow_mut().push(Event::Grad { j, xw: xw.to_vec(), out: vec![out] });
        out
    }
    fn full_grad(&self, ds: &DatasetBase<DM, T>, xw: ArrayView1<f64>) -> Array1<f64> {
        self.d.full_grad(ds, xw)
    }
    fn step_size(&self) -> ArrayView1<'_, f64> {
        self.d.step_size()
    }
}
impl<DM, T, D> MultiTaskDatafit<f64, DM, T> for SpyD<'_, D>
where
    DM: DesignMatrix<Elem = f64>,
    T: AsMultiTargets<Elem = f64>,
    D: MultiTaskDatafit<f64, DM, T>,
{
    fn initialize(&mut self, ds: &DatasetBase<DM, T>) {
        self.log.borrow_mut().push(Event::Init);
        self.d.initialize(ds)
    }
    fn value(&self, ds: &DatasetBase<DM, T>, xw: ArrayView2<f64>) -> f64 {
        let out = self.d.value(ds, xw);
        self.log.borrow_mut().push(Event::Fit { xw: xw.iter().cloned().collect(), out });
        out
    }
    fn gradient_j(&self, ds: &DatasetBase<DM, T>, xw: ArrayView2<f64>, j: usize) -> Array1<f64> {
        let out = self.d.gradient_j(ds, xw, j);
        self.log.borrow_mut().push(Event::Grad { j, xw: xw.iter().cloned().collect(), out: out.to_vec() });
        out
    }
    fn full_grad(&self, ds: &DatasetBase<DM, T>, xw: ArrayView2<f64>) -> Array2<f64> {
        self.d.full_grad(ds, xw)
    }
    fn step_size(&self) -> ArrayView1<'_, f64> {
        self.d.step_size()
    }
}
impl<P: Penalty<f64>> Penalty<f64> for SpyP<'_, P> {
    fn value(&self, w: ArrayView1<f64>) -> f64 {
        let out = self.p.value(w);
        self.log.borrow_mut().push(Event::Pen { w: w.to_vec(), out });
        out
    }
    fn prox(&self, v: f64, step: f64) -> f64 {
        let out = self.p.prox(v, step);
        self.log.borrow_mut().push(Event::Prox { v: vec![v], step, out: vec![out] });
        out
    }
    fn subdiff_distance(&self, w: ArrayView1<f64>, grad: ArrayView1<f64>, ws: ArrayView1<usize>) -> (Array1<f64>, f64) {
        let (d, max) = self.p.subdiff_distance(w, grad, ws);
        self.log.borrow_mut().push(Event::Dist { w: w.to_vec(), ws: ws.to_vec(), grad: grad.to_vec(), out: d.to_vec(), max });
        (d, max)
    }
    fn use_fixed_point(&self) -> bool {
        self.p.use_fixed_point()
    }
}
impl<P: MultiTaskPenalty<f64>> MultiTaskPenalty<f64> for SpyP<'_, P> {
    fn value(&self, w: ArrayView2<f64>) -> f64 {
        let out = self.p.value(w);
        self.log.borrow_mut().push(Event::Pen { w: w.iter().cloned().collect(), out });
        out
    }
    fn prox(&self, v: ArrayView1<f64>, step: f64) -> Array1<f64> {
        let out = self.p.prox(v, step);
        self.log.borrow_mut().push(Event::Prox { v: v.to_vec(), step, out: out.to_vec() });
        out
    }
    fn subdiff_distance(&self, w: ArrayView2<f64>, grad: ArrayView2<f64>, ws: ArrayView1<usize>) -> (Array1<f64>, f64) {
        let (d, max) = self.p.subdiff_distance(w, grad, ws);
        self.log.borrow_mut().push(Event::Dist {
            w: w.iter().cloned().collect(),
            ws: ws.to_vec(),
            grad: grad.iter().cloned().collect(),
            out: d.to_vec(),
            max,
        });
        (d, max)
    }
}

struct V<'a> {
    m: &'a Model,
    k: &'a Knobs,
    log: &'a Log,
}
impl Visit1<f64> for V<'_> {
    type Out = Result<Vec<f64>, String>;
    fn visit<DM, T>(self, ds: &DatasetBase<DM, T>) -> Self::Out
    where
        DM: DesignMatrix<Elem = f64>,
        T: AsSingleTargets<Elem = f64>,
        Quadratic<f64>: Datafit<f64, DM, T>,
        Logistic<f64>: Datafit<f64, DM, T>,
        LassoParams<f64>: Fit<DM, T, EstimatorError, Object = Lasso<f64>>,
        ElasticNetParams<f64>: Fit<DM, T, EstimatorError, Object = ElasticNet<f64>>,
        MCParams<f64>: Fit<DM, T, EstimatorError, Object = MCPEstimator<f64>>,
    {
        fn go<DM, T, D>(v: &V, ds: &DatasetBase<DM, T>, d: D) -> Result<Vec<f64>, String>
        where
            DM: DesignMatrix<Elem = f64>,
            T: AsSingleTargets<Elem = f64>,
            D: Datafit<f64, DM, T>,
        {
            let (m, log) = (v.m, v.log);
            let s = solver::<f64>(v.k);
            let mut d = SpyD { d, log };
            match m.pen {
                Pen::L1 => s.solve(ds, &mut d, &SpyP { p: L1::new(m.alpha), log }),
                Pen::EN => s.solve(ds, &mut d, &SpyP { p: L1PlusL2::new(m.alpha, m.ratio), log }),
                Pen::MCP => s.solve(ds, &mut d, &SpyP { p: MCP::new(m.alpha, m.gamma), log }),
                Pen::L05 => s.solve(ds, &mut d, &SpyP { p: L05::new(m.alpha), log }),
            }
            .map(|w| w.to_vec())
            .map_err(|e| e.to_string())
        }
        if self.m.logistic {
            go(&self, ds, Logistic::new())
        } else {
            go(&self, ds, Quadratic::new())
        }
    }
}
impl Visit2<f64> for V<'_> {
    type Out = Result<Vec<f64>, String>;
    fn visit<DM, T>(self, ds: &DatasetBase<DM, T>) -> Self::Out
    where
        DM: DesignMatrix<Elem = f64>,
        T: AsMultiTargets<Elem = f64>,
        QuadraticMultiTask<f64>: MultiTaskDatafit<f64, DM, T>,
        MultiTaskLassoParams<f64>: Fit<DM, T, EstimatorError, Object = MultiTaskLasso<f64>>,
        MultiTaskElasticNetParams<f64>: Fit<DM, T, EstimatorError, Object = MultiTaskElasticNet<f64>>,
        BlockMCParams<f64>: Fit<DM, T, EstimatorError, Object = BlockMCPEstimator<f64>>,
    {
        let (m, log) = (self.m, self.log);
        let s = solver::<f64>(self.k);
        let mut d = SpyD { d: QuadraticMultiTask::new(), log };
        match m.pen {
            Pen::L1 => s.solve_multi_task(ds, &mut d, &SpyP { p: L21::new(m.alpha), log }),
            Pen::EN => s.solve_multi_task(ds, &mut d, &SpyP { p: BlockL1PlusL2::new(m.alpha, m.ratio), log }),
            _ => s.solve_multi_task(ds, &mut d, &SpyP { p: BlockMCP::new(m.alpha, m.gamma), log }),
        }
        .map(|w| w.iter().cloned().collect())
        .map_err(|e| e.to_string())
    }
}

/// Fit through the generic solver with recording wrappers around the datafit and the penalty.
pub fn spied_fit(pb: &Problem, m: &Model, k: &Knobs, lay: &Layout) -> Result<(Vec<f64>, Vec<Event>), String> {
    let log: Log = RefCell::new(vec![]);
    let xs = XStore::<f64>::build(pb, lay.x, lay.seed);
    let v = V { m, k, log: &log };
    let w = if m.multi {
        let one = pb.t == 1 && lay.seed % 2 == 1;
        dispatch2(&xs, &YStore::<f64>::build(pb, lay.y, one), v)?
    } else {
        dispatch1(&xs, &YStore::<f64>::build(pb, lay.y, true), v)?
    };
    Ok((w, log.into_inner()))
}
