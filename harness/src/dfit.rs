//! Datafit quantities computed by the crate on a dataset in any layout.
use crate::fit::*;
use crate::problem::*;
use crate::unit::{mat, mat_view, vec_view, vecl};
use ndarray::{Array1, Array2};
use sparseglm::datafits::multi_task::{MultiTaskDatafit, QuadraticMultiTask};
use sparseglm::datafits::single_task::{Datafit, Logistic, Quadratic};
use sparseglm::datasets::{AsMultiTargets, AsSingleTargets, DatasetBase, DesignMatrix};
use sparseglm::estimators::error::EstimatorError;
use sparseglm::estimators::estimators::*;
use sparseglm::estimators::hyperparams::*;
use sparseglm::estimators::traits::Fit;
use sparseglm::Float;

pub struct Quantities {
    pub lips: Vec<f64>,
    /// datafit value at every requested prediction
    pub values: Vec<f64>,
    /// coordinate gradients (row-major p x t) at the first prediction
    pub grads: Vec<f64>,
    pub full: Vec<f64>,
}

struct V<'a> {
    pb: &'a Problem,
    logistic: bool,
    /// row-major n x t predictions
    xw: &'a [Vec<f64>],
    kind: usize,
}
fn up<F: Float>(v: impl IntoIterator<Item = F>) -> Vec<f64> {
    v.into_iter().map(|x| x.to_f64().unwrap()).collect()
}
impl<F: Float + 'static> Visit1<F> for V<'_> {
    type Out = Result<Quantities, String>;
    fn visit<DM, T>(self, ds: &DatasetBase<DM, T>) -> Self::Out
    where
        DM: DesignMatrix<Elem = F>,
        T: AsSingleTargets<Elem = F>,
        Quadratic<F>: Datafit<F, DM, T>,
        Logistic<F>: Datafit<F, DM, T>,
        LassoParams<F>: Fit<DM, T, EstimatorError, Object = Lasso<F>>,
        ElasticNetParams<F>: Fit<DM, T, EstimatorError, Object = ElasticNet<F>>,
        MCParams<F>: Fit<DM, T, EstimatorError, Object = MCPEstimator<F>>,
    {
        fn go<F: Float + 'static, DM, T, D>(s: &V, ds: &DatasetBase<DM, T>, mut df: D) -> Result<Quantities, String>
        where
            DM: DesignMatrix<Elem = F>,
            T: AsSingleTargets<Elem = F>,
            D: Datafit<F, DM, T>,
        {
            df.initialize(ds);
            let st: Vec<Array1<F>> = s
                .xw
                .iter()
                .map(|v| vecl(&v.iter().map(|&x| c::<F>(x)).collect::<Vec<_>>(), s.kind))
                .collect();
            let x0 = vec_view(&st[0], s.kind);
            Ok(Quantities {
                lips: up(df.step_size().iter().cloned()),
                values: up(st.iter().map(|a| df.value(ds, vec_view(a, s.kind)))),
                grads: up((0..s.pb.p).map(|j| df.gradient_j(ds, x0, j))),
                full: up(df.full_grad(ds, x0).iter().cloned()),
            })
        }
        if self.logistic {
            go(&self, ds, Logistic::new())
        } else {
            go(&self, ds, Quadratic::new())
        }
    }
}
impl<F: Float + 'static> Visit2<F> for V<'_> {
    type Out = Result<Quantities, String>;
    fn visit<DM, T>(self, ds: &DatasetBase<DM, T>) -> Self::Out
    where
        DM: DesignMatrix<Elem = F>,
        T: AsMultiTargets<Elem = F>,
        QuadraticMultiTask<F>: MultiTaskDatafit<F, DM, T>,
        MultiTaskLassoParams<F>: Fit<DM, T, EstimatorError, Object = MultiTaskLasso<F>>,
        MultiTaskElasticNetParams<F>: Fit<DM, T, EstimatorError, Object = MultiTaskElasticNet<F>>,
        BlockMCParams<F>: Fit<DM, T, EstimatorError, Object = BlockMCPEstimator<F>>,
    {
        let mut df = QuadraticMultiTask::new();
        df.initialize(ds);
        let t = self.pb.t;
        let st: Vec<Array2<F>> = self
            .xw
            .iter()
            .map(|v| mat(&v.iter().map(|&x| c::<F>(x)).collect::<Vec<_>>(), t, self.kind))
            .collect();
        let x0 = mat_view(&st[0], self.kind);
        let mut grads = vec![];
        for j in 0..self.pb.p {
            let g = df.gradient_j(ds, x0, j);
            if g.len() != t {
                return Err(format!("gradient of {} tasks for {}", g.len(), t));
            }
            grads.extend(up(g.iter().cloned()));
        }
        let full = df.full_grad(ds, x0);
        if full.dim() != (self.pb.p, t) {
            return Err(format!("full gradient has shape {:?}", full.dim()));
        }
        if df.XtY().dim() != (self.pb.p, t) {
            return Err(format!("XtY has shape {:?}", df.XtY().dim()));
        }
        Ok(Quantities {
            lips: up(df.step_size().iter().cloned()),
            values: up(st.iter().map(|a| df.value(ds, mat_view(a, self.kind)))),
            grads,
            full: up(full.iter().cloned()),
        })
    }
}

/// Datafit quantities in precision F; the first prediction is where the gradients are taken.
pub fn quantities<F: Float + 'static>(
    pb: &Problem,
    logistic: bool,
    multi: bool,
    lay: &Layout,
    xw: &[Vec<f64>],
    kind: usize,
) -> Result<Quantities, String> {
    let xs = XStore::<F>::build(pb, lay.x, lay.seed);
    let v = V { pb, logistic, xw, kind };
    let q = if multi {
        let one = pb.t == 1 && lay.seed % 2 == 1;
        dispatch2(&xs, &YStore::<F>::build(pb, lay.y, one), v)?
    } else {
        dispatch1(&xs, &YStore::<F>::build(pb, lay.y, true), v)?
    };
    if q.lips.len() != pb.p || q.full.len() != pb.p * pb.t {
        return Err(format!("{} constants and {} gradient entries for {} features", q.lips.len(), q.full.len(), pb.p));
    }
    Ok(q)
}
