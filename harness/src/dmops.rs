//! Direct use of the DesignMatrix and target traits on a dataset in any layout.
use crate::fit::*;
use crate::problem::*;
use ndarray::{Array1, Array2, Axis};
use sparseglm::datafits::multi_task::{MultiTaskDatafit, QuadraticMultiTask};
use sparseglm::datafits::single_task::{Datafit, Logistic, Quadratic};
use sparseglm::datasets::{AsMultiTargets, AsSingleTargets, DatasetBase, DesignMatrix, DesignMatrixType};
use sparseglm::estimators::error::EstimatorError;
use sparseglm::estimators::estimators::*;
use sparseglm::estimators::hyperparams::*;
use sparseglm::estimators::traits::Fit;
use sparseglm::Float;

#[derive(Default, Clone, Debug)]
pub struct Ops {
    pub sparse: bool,
    pub n_features: usize,
    pub n_samples: usize,
    pub n_tasks: usize,
    pub targets: Vec<f64>,
    /// targets as a vector (single task only)
    pub single: Vec<f64>,
    /// X[:, ws] w[ws] computed in one go / through single-feature updates of `start`
    pub extrapolated: Vec<f64>,
    pub updated: Vec<f64>,
    /// the same through a reference to the matrix
    pub by_ref: Option<Box<Ops>>,
}
struct V<'a> {
    ws: &'a [usize],
    /// row-major p x t
    w: &'a [f64],
    start: &'a [f64],
    multi: bool,
}
fn up<F: Float>(v: impl IntoIterator<Item = F>) -> Vec<f64> {
    v.into_iter().map(|x| x.to_f64().unwrap()).collect()
}
impl V<'_> {
    fn go<F: Float, DM: DesignMatrix<Elem = F>, T: AsMultiTargets<Elem = F>>(&self, x: DM, y: &T) -> Ops {
        let (n, t, p) = (y.n_samples(), y.n_tasks(), x.n_features());
        let mut o = Ops {
            sparse: x.matrix_type() == DesignMatrixType::Sparse,
            n_features: p,
            n_samples: n,
            n_tasks: t,
            targets: up(y.as_multi_tasks().iter().cloned()),
            ..Default::default()
        };
        let ws = Array1::from(self.ws.to_vec());
        let w = Array2::from_shape_fn((p, t), |(j, k)| c::<F>(self.w[j * t + k]));
        let mut xw = Array2::from_shape_fn((n, t), |(i, k)| c::<F>(self.start[i * t + k]));
        if self.multi {
            o.extrapolated = up(x.compute_extrapolated_fit_multi_task(ws.view(), &w, n, t).iter().cloned());
            for &j in self.ws {
                x.update_model_fit_multi_task(&mut xw, w.row(j), j);
            }
            o.updated = up(xw.iter().cloned());
        } else {
            let w1 = w.index_axis(Axis(1), 0).to_owned();
            let mut x1 = xw.index_axis(Axis(1), 0).to_owned();
            o.extrapolated = up(x.compute_extrapolated_fit(ws.view(), &w1, n).iter().cloned());
            for &j in self.ws {
                x.update_model_fit(&mut x1, w1[j], j);
            }
            o.updated = up(x1.iter().cloned());
        }
        o
    }
}
impl<F: Float + 'static> Visit1<F> for V<'_> {
    type Out = Result<Ops, String>;
    fn visit<DM, T>(self, ds: &DatasetBase<DM, T>) -> Self::Out
    where
        DM: DesignMatrix<Elem = F>,
        T: AsSingleTargets<Elem = F>,
        Quadratic<F>: Datafit<F, DM, T>,
        Logistic<F>: Datafit<F, DM, T>,
        LassoParams<F>: Fit<DM, T, EstimatorError, Object = Lasso<F>>,
        ElasticNetParams<F>: Fit<DM, T, EstimatorError, Object = ElasticNet<F>>,
        MCParams<F>: Fit<DM, T, EstimatorError, Object = MCPEstimator<F>>,
    {
        let mut o = self.go(ds.design_matrix(), ds.targets());
        let mut r = self.go(&ds.design_matrix(), &ds.targets());
        o.single = up(ds.targets().try_single_target().map_err(|e| e.to_string())?.iter().cloned());
        r.single = o.single.clone();
        o.by_ref = Some(Box::new(r));
        Ok(o)
    }
}
impl<F: Float + 'static> Visit2<F> for V<'_> {
    type Out = Result<Ops, String>;
    fn visit<DM, T>(self, ds: &DatasetBase<DM, T>) -> Self::Out
    where
        DM: DesignMatrix<Elem = F>,
        T: AsMultiTargets<Elem = F>,
        QuadraticMultiTask<F>: MultiTaskDatafit<F, DM, T>,
        MultiTaskLassoParams<F>: Fit<DM, T, EstimatorError, Object = MultiTaskLasso<F>>,
        MultiTaskElasticNetParams<F>: Fit<DM, T, EstimatorError, Object = MultiTaskElasticNet<F>>,
        BlockMCParams<F>: Fit<DM, T, EstimatorError, Object = BlockMCPEstimator<F>>,
    {
        let mut o = self.go(ds.design_matrix(), ds.targets());
        o.by_ref = Some(Box::new(self.go(&ds.design_matrix(), &ds.targets())));
        Ok(o)
    }
}

pub fn ops<F: Float + 'static>(pb: &Problem, multi: bool, lay: &Layout, ws: &[usize], w: &[f64], start: &[f64]) -> Result<Ops, String> {
    let xs = XStore::<F>::build(pb, lay.x, lay.seed);
    let v = V { ws, w, start, multi };
    if multi {
        let one = pb.t == 1 && lay.seed % 2 == 1;
        dispatch2(&xs, &YStore::<F>::build(pb, lay.y, one), v)
    } else {
        dispatch1(&xs, &YStore::<F>::build(pb, lay.y, true), v)
    }
}
