//! The case type shared by most checks: a problem, a model, solver knobs, a layout, an entry point.
use crate::fit::*;
use crate::oracle::*;
use crate::problem::*;
use crate::rng::G;
use crate::runner::{Info, Outcome};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FitCase {
    pub model: Model,
    pub knobs: Knobs,
    pub layout: Layout,
    pub api: Api,
    pub pb: Problem,
}

impl FitCase {
    pub fn fit(&self) -> Result<Vec<f64>, String> {
        fit(&self.pb, &self.model, &self.knobs, &self.layout, self.api)
    }
    pub fn shrink(&self) -> Vec<FitCase> {
        let mut v = vec![];
        for pb in shrink_problem(&self.pb) {
            // keep MCP inside its domain
            if self.model.pen == Pen::MCP && !mcp_domain(&pb, &self.model) {
                continue;
            }
            v.push(FitCase { pb, ..self.clone() });
        }
        for layout in self.layout.shrink() {
            v.push(FitCase {
                layout,
                ..self.clone()
            });
        }
        for knobs in shrink_knobs(&self.knobs) {
            v.push(FitCase {
                knobs,
                ..self.clone()
            });
        }
        for model in shrink_model(&self.model) {
            if model.pen == Pen::MCP && !mcp_domain(&self.pb, &model) {
                continue;
            }
            v.push(FitCase {
                model,
                ..self.clone()
            });
        }
        v
    }
}

/// gamma * L_j > 1 for every non-zero column (with a margin), gamma >= 1
pub fn mcp_domain(pb: &Problem, m: &Model) -> bool {
    let k = if m.logistic { 0.25 } else { 1.0 };
    m.gamma >= 1.0
        && pb
            .lips()
            .into_iter()
            .all(|l| l == 0.0 || l * k * m.gamma >= 1.19)
}

pub fn gen_fit_case(g: &mut G, shape: Shape, pens: &[Pen], multi: bool) -> FitCase {
    let logistic = shape.target == 2;
    let pb = gen_problem(g, shape);
    let model = gen_model(g, &pb, pens, logistic, multi);
    let mut knobs = gen_knobs(g, &pb, logistic);
    if model.pen == Pen::L05 {
        // its violations are in units of coefficients
        let l = pb.lips().into_iter().fold(0.0, f64::max);
        knobs.tol /= if l > 0.0 { l } else { 1.0 };
    }
    if model.nonconvex() {
        (knobs.max_iter, knobs.max_epochs) = (80, 1000);
    }
    // many short outer iterations instead of few long ones
    if !model.nonconvex() && g.bool(0.15) {
        (knobs.max_iter, knobs.max_epochs) = (SHORT_ITERATIONS, g.pick(&[1, 2, 3, 5, 10, 11, 12, 21, 50]));
    }
    // bound the cost of fits that never meet their tolerance
    let work = (knobs.max_iter * pb.n * pb.p * pb.t) as f64;
    if knobs.max_iter < SHORT_ITERATIONS {
        knobs.max_epochs = knobs.max_epochs.min(((if multi { 3e8 } else { 1.5e9 } / work) as usize).max(100));
    }
    let layout = Layout::gen(g);
    let api = if g.bool(0.6) {
        Api::Estimator
    } else {
        Api::Solver
    };
    FitCase {
        model,
        knobs,
        layout,
        api,
        pb,
    }
}

/// Epochs within which plain cyclic coordinate descent has to converge for a case to be judged on
/// convergence: such problems are far inside the budget every fit is given.
pub const REF_EPOCHS: usize = 1000;
/// Outer iterations of the fits that get only a few epochs in each.
pub const SHORT_ITERATIONS: usize = 5000;

/// Gives a case of many short outer iterations the usual budget back. Where features leave and re-enter the
/// working set, one-epoch iterations can creep for any number of them: checks comparing converged fits
/// leave such budgets out.
pub fn long_iterations(c: &mut FitCase) {
    if c.knobs.max_iter >= SHORT_ITERATIONS {
        let work = (200 * c.pb.n * c.pb.p * c.pb.t) as f64;
        c.knobs.max_iter = 200;
        c.knobs.max_epochs = ((if c.model.multi { 3e8 } else { 1.5e9 } / work) as usize).clamp(100, 5000);
    }
}

/// The central oracle: a fit of `c` with a generous budget satisfies the optimality conditions
/// recomputed from scratch, whenever plain coordinate descent converges quickly on the same problem.
pub fn judge_fit(c: &FitCase) -> Outcome {
    let (pb, m, k) = (&c.pb, &c.model, &c.knobs);
    let short = k.max_iter >= SHORT_ITERATIONS;
    let r = ref_cd(pb, m, k.tol * 0.5, if short { REF_EPOCHS / 4 } else { REF_EPOCHS });
    let w = if r.epochs.is_some() {
        c.fit()?
    } else {
        // convergence is not demanded: a small budget suffices to check the rest
        let knobs = Knobs { max_iter: 5, max_epochs: k.max_epochs.min(60), ..*k };
        FitCase { knobs, ..c.clone() }.fit()?
    };
    judge_solution(c, &w)?;
    let nnz = w.chunks(pb.t).filter(|r| r.iter().any(|&v| v != 0.0)).count();
    let mut info = Info::new(r.epochs.is_some() && nnz > 0)
        .label(if r.epochs.is_some() { "judged" } else { "screened" })
        .label(format!("{:?}", m.pen))
        .label(if c.layout.x.sparse() { "sparse" } else { "dense" })
        .label_if(pb.n < pb.p, "n<p")
        .label_if(nnz == 0, "null solution")
        .label_if(nnz > 0 && nnz < pb.p, "sparse solution")
        .label_if(k.ws < pb.p, "working set smaller than p")
        .label_if(k.accel && k.k > k.ws.min(pb.p) * pb.t, "window larger than working set")
        .label_if(short, "short iterations")
        .label_if(m.alpha == 0.0, "alpha = 0");
    if r.epochs.is_some() {
        let sl = slack(pb, m, &w, f64::EPSILON);
        let v = max_excess(pb, m, &w, f64::EPSILON);
        if !(v <= k.tol * (1.0 + 1e-6)) {
            if m.nonconvex() {
                // A different stationary point than the reference's may attract the fit slowly: the
                // budget counts as exhausted when one more outer iteration still moves the
                // coefficients and plain descent from there does not converge at once either.
                let knobs = Knobs { max_iter: k.max_iter + 1, ..*k };
                let w2 = FitCase { knobs, ..c.clone() }.fit()?;
                if w2 != w && ref_cd_from(pb, m, k.tol * 0.5, 30, w.clone()).epochs.is_none() {
                    return Ok(Info::new(false).label("budget exhausted"));
                }
            }
            if short {
                // one-epoch iterations can creep: they get forty times the budget before they are judged
                let knobs = Knobs { max_iter: 40 * k.max_iter, ..*k };
                let w2 = FitCase { knobs, ..c.clone() }.fit()?;
                if max_excess(pb, m, &w2, f64::EPSILON) <= k.tol * (1.0 + 1e-6) {
                    return Ok(Info::new(false).label("budget exhausted"));
                }
            }
            if crate::uniq::exhausted(pb, m, k.tol, &w) {
                return Ok(Info::new(false).label("budget exhausted"));
            }
            return Err(format!(
                "optimality violation {:e} exceeds tolerance {:e} (plain coordinate descent reaches {:e} in {} epochs)",
                v, k.tol, r.kkt, r.epochs.unwrap()
            ));
        }
        // objective no worse than the reference's by more than the tolerance allows (convex models)
        if m.pen == Pen::L1 || m.pen == Pen::EN {
            let (o, oref) = (objective(pb, m, &w), objective(pb, m, &r.w));
            let d: f64 = w
                .iter()
                .zip(&r.w)
                .map(|(a, b)| (a - b).abs())
                .sum::<f64>();
            let bound = (k.tol * (1.0 + 1e-6) + sl) * d + 1e-12 * (o.abs() + oref.abs() + fit_value(pb, m.logistic, &vec![0.0; pb.n * pb.t]));
            if !(o <= oref + bound) {
                return Err(format!(
                    "objective {:e} above the reference minimum {:e} by more than {:e}",
                    o, oref, bound
                ));
            }
        }
        if r.epochs.unwrap() > 200 {
            info = info.label("slow problem");
        }
    }
    Ok(info)
}

/// What every returned solution must satisfy regardless of convergence.
pub fn judge_solution(c: &FitCase, w: &[f64]) -> Result<(), String> {
    let (pb, m) = (&c.pb, &c.model);
    if let Some(v) = w.iter().find(|v| !v.is_finite()) {
        return Err(format!("non-finite coefficient {}", v));
    }
    let lips = pb.lips();
    for j in 0..pb.p {
        if lips[j] == 0.0 && w[j * pb.t..(j + 1) * pb.t].iter().any(|&v| v != 0.0) {
            return Err(format!("all-zero column {} has a non-zero coefficient", j));
        }
    }
    let zero = vec![0.0; w.len()];
    let (o, o0) = (objective(pb, m, w), objective(pb, m, &zero));
    if !(o <= o0 + 1e-9 * o0.abs() + 1e-300) {
        return Err(format!(
            "objective {:e} is above the null model's {:e}",
            o, o0
        ));
    }
    Ok(())
}
