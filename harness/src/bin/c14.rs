use harness::fit::{c as cast, dispatch1, dispatch2, Visit1, Visit2};
use harness::prelude::*;
use ndarray::{Array1, Array2};
use sparseglm::datafits::multi_task::{MultiTaskDatafit, QuadraticMultiTask};
use sparseglm::datafits::single_task::{Datafit, Logistic, Quadratic};
use sparseglm::datasets::{AsMultiTargets, AsSingleTargets, DatasetBase, DesignMatrix};
use sparseglm::estimators::error::EstimatorError;
use sparseglm::estimators::estimators::*;
use sparseglm::estimators::hyperparams::*;
use sparseglm::estimators::param_guard::ParamGuard;
use sparseglm::estimators::traits::Fit;
use sparseglm::solvers::Solver;
use sparseglm::Float;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Op {
    Alpha(f64),
    /// gamma or l1_ratio, whichever the estimator has
    Second(#[serde(with = "inf")] f64),
    Tol(f64),
    K(usize),
    Ws(usize),
    Iter(usize),
    Epochs(usize),
    Accel(bool),
    Verbose(bool),
}

/// The model of a parameter set: its fields, in the precision of the estimator.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Vals<F> {
    alpha: F,
    second: F,
    tol: F,
    k: usize,
    ws: usize,
    iter: usize,
    epochs: usize,
    accel: bool,
    verbose: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Bad {
    Alpha(f32),
    Gamma(f32),
    Tol(f32),
    K(usize),
    Ws(usize),
    Ratio(f32),
    /// check_unwrap panicked
    Panic,
    /// the message names another parameter or value
    Unnamed,
}
fn bad(e: &EstimatorError) -> Bad {
    let b = match *e {
        EstimatorError::InvalidRegularization(v) => Bad::Alpha(v),
        EstimatorError::InvalidGamma(v) => Bad::Gamma(v),
        EstimatorError::InvalidTolerance(v) => Bad::Tol(v),
        EstimatorError::InvalidK(v) => Bad::K(v),
        EstimatorError::InvalidWSSize(v) => Bad::Ws(v),
        EstimatorError::InvalidL1Ratio(v) => Bad::Ratio(v),
    };
    // the message names the parameter and its value
    let text = e.to_string().to_lowercase();
    let (names, value): (&[&str], String) = match b {
        Bad::Alpha(v) => (&["alpha"], v.to_string()),
        Bad::Gamma(v) => (&["gamma"], v.to_string()),
        Bad::Tol(v) => (&["tol"], v.to_string()),
        Bad::K(v) => (&["k"], v.to_string()),
        Bad::Ws(v) => (&["working set", "ws"], v.to_string()),
        Bad::Ratio(v) => (&["ratio"], v.to_string()),
        Bad::Panic | Bad::Unnamed => return b,
    };
    if names.iter().any(|n| text.contains(n)) && text.contains(&value.to_lowercase()) {
        b
    } else {
        Bad::Unnamed
    }
}

impl<F: Float> Vals<F> {
    /// documented defaults
    fn defaults(pen: Pen) -> Self {
        Vals {
            alpha: F::one(),
            second: match pen {
                Pen::EN => F::cast(0.5),
                Pen::MCP => F::cast(3.0),
                _ => F::zero(),
            },
            tol: F::cast(1e-6),
            k: 5,
            ws: 10,
            iter: 50,
            epochs: 1000,
            accel: true,
            verbose: true,
        }
    }
    fn apply(&mut self, op: Op, pen: Pen) {
        match op {
            Op::Alpha(v) => self.alpha = cast(v),
            Op::Second(v) => {
                if pen != Pen::L1 {
                    self.second = cast(v)
                }
            }
            Op::Tol(v) => self.tol = cast(v),
            Op::K(v) => self.k = v,
            Op::Ws(v) => self.ws = v,
            Op::Iter(v) => self.iter = v,
            Op::Epochs(v) => self.epochs = v,
            Op::Accel(v) => self.accel = v,
            Op::Verbose(v) => self.verbose = v,
        }
    }
    /// every error the parameter set may be rejected with
    fn offences(&self, pen: Pen) -> Vec<Bad> {
        let f = |v: F| v.to_f32().unwrap();
        let mut v = vec![];
        if self.alpha < F::zero() {
            v.push(Bad::Alpha(f(self.alpha)));
        }
        if self.tol < F::zero() {
            v.push(Bad::Tol(f(self.tol)));
        }
        if self.k == 0 {
            v.push(Bad::K(0));
        }
        if self.ws == 0 {
            v.push(Bad::Ws(0));
        }
        if pen == Pen::MCP && self.second < F::one() {
            v.push(Bad::Gamma(f(self.second)));
        }
        if pen == Pen::EN && !(self.second >= F::zero() && self.second <= F::one()) {
            v.push(Bad::Ratio(f(self.second)));
        }
        v
    }
    fn ops(&self) -> Vec<Op> {
        let f = |v: F| v.to_f64().unwrap();
        vec![
            Op::Verbose(self.verbose),
            Op::Accel(self.accel),
            Op::Second(f(self.second)),
            Op::Ws(self.ws),
            Op::K(self.k),
            Op::Epochs(self.epochs),
            Op::Iter(self.iter),
            Op::Tol(f(self.tol)),
            Op::Alpha(f(self.alpha)),
        ]
    }
}

macro_rules! param_enum {
    ($(($V:ident, $P:ident, $E:ident, $pen:expr, $multi:expr, [$($second:ident)?])),*) => {
        #[derive(Clone, Debug, PartialEq)]
        enum Par<F> { $($V($P<F>)),* }
        impl<F: Float> Par<F> {
            fn new(pen: Pen, multi: bool, how: usize) -> Self {
                $(if pen == $pen && multi == $multi {
                    return Par::$V(match how % 3 { 0 => $P::new(), 1 => $P::default(), _ => $E::params() });
                })*
                unreachable!()
            }
            fn set(self, op: Op) -> Self {
                match self { $(Par::$V(p) => Par::$V(match op {
                    Op::Alpha(v) => p.alpha(cast(v)),
                    Op::Tol(v) => p.tolerance(cast(v)),
                    Op::K(v) => p.K(v),
                    Op::Ws(v) => p.ws_start_size(v),
                    Op::Iter(v) => p.max_iterations(v),
                    Op::Epochs(v) => p.max_epochs(v),
                    Op::Accel(v) => p.use_acceleration(v),
                    Op::Verbose(v) => p.verbose(v),
                    Op::Second(_v) => { $(let p = p.$second(cast(_v));)? p }
                })),* }
            }
            /// the verdict, and the getters of the checked set
            fn verdict(&self, how: usize) -> Result<Vals<F>, Bad> {
                match self { $(Par::$V(p) => {
                    let o;
                    let v = match how {
                        0 => p.check_ref().map_err(|e| bad(&e))?,
                        1 => { o = p.clone().check().map_err(|e| bad(&e))?; &o }
                        _ => {
                            let q = p.clone();
                            o = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || q.check_unwrap())).map_err(|_| Bad::Panic)?;
                            &o
                        }
                    };
                    #[allow(unused_mut, unused_assignments)]
                    let mut second = F::zero();
                    $(second = v.$second();)?
                    Ok(Vals { alpha: v.alpha(), second, tol: v.tolerance(), k: v.K(), ws: v.ws_start_size(), iter: v.max_iterations(),
                        epochs: v.max_epochs(), accel: v.use_acceleration(), verbose: v.verbose() })
                }),* }
            }
        }
    };
}
param_enum!(
    (Lasso, LassoParams, Lasso, Pen::L1, false, []),
    (En, ElasticNetParams, ElasticNet, Pen::EN, false, [l1_ratio]),
    (Mcp, MCParams, MCPEstimator, Pen::MCP, false, [gamma]),
    (MtLasso, MultiTaskLassoParams, MultiTaskLasso, Pen::L1, true, []),
    (MtEn, MultiTaskElasticNetParams, MultiTaskElasticNet, Pen::EN, true, [l1_ratio]),
    (BlockMcp, BlockMCParams, BlockMCPEstimator, Pen::MCP, true, [gamma])
);

impl<F: Float + 'static> Visit1<F> for &Par<F> {
    type Out = Result<Array1<F>, EstimatorError>;
    fn visit<DM, T>(self, ds: &DatasetBase<DM, T>) -> Self::Out
    where
        DM: DesignMatrix<Elem = F>,
        T: AsSingleTargets<Elem = F>,
        Quadratic<F>: Datafit<F, DM, T>,
        Logistic<F>: Datafit<F, DM, T>,
        LassoParams<F>: Fit<DM, T, EstimatorError, Object = Lasso<F>>,
        ElasticNetParams<F>: Fit<DM, T, EstimatorError, Object = ElasticNet<F>>,
        MCParams<F>: Fit<DM, T, EstimatorError, Object = MCPEstimator<F>>,
    {
        match self {
            Par::Lasso(p) => p.fit(ds).map(|e| e.coefficients().to_owned()),
            Par::En(p) => p.fit(ds).map(|e| e.coefficients().to_owned()),
            Par::Mcp(p) => p.fit(ds).map(|e| e.coefficients().to_owned()),
            _ => unreachable!(),
        }
    }
}
impl<F: Float + 'static> Visit2<F> for &Par<F> {
    type Out = Result<Array2<F>, EstimatorError>;
    fn visit<DM, T>(self, ds: &DatasetBase<DM, T>) -> Self::Out
    where
        DM: DesignMatrix<Elem = F>,
        T: AsMultiTargets<Elem = F>,
        QuadraticMultiTask<F>: MultiTaskDatafit<F, DM, T>,
        MultiTaskLassoParams<F>: Fit<DM, T, EstimatorError, Object = MultiTaskLasso<F>>,
        MultiTaskElasticNetParams<F>: Fit<DM, T, EstimatorError, Object = MultiTaskElasticNet<F>>,
        BlockMCParams<F>: Fit<DM, T, EstimatorError, Object = BlockMCPEstimator<F>>,
    {
        match self {
            Par::MtLasso(p) => p.fit(ds).map(|e| e.coefficients().to_owned()),
            Par::MtEn(p) => p.fit(ds).map(|e| e.coefficients().to_owned()),
            Par::BlockMcp(p) => p.fit(ds).map(|e| e.coefficients().to_owned()),
            _ => unreachable!(),
        }
    }
}

struct C14;
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    pen: Pen,
    multi: bool,
    single_precision: bool,
    how: usize,
    ops: Vec<Op>,
    layout: Layout,
    pb: Problem,
}

impl C14 {
    fn run<F: Float + 'static>(&self, c: &Case) -> Outcome {
        let pen = c.pen;
        let name = format!("{:?}{}", pen, if c.multi { " multi" } else { "" });
        let mut par = Par::<F>::new(pen, c.multi, c.how);
        let mut model = Vals::<F>::defaults(pen);
        let mut sol = Solver::<F>::new();
        let mut want = (10usize, 50usize, 1000usize, F::cast(1e-8), 5usize, true, true);
        let mut rejected = 0;
        for i in 0..=c.ops.len() {
            if i > 0 {
                let op = c.ops[i - 1];
                par = par.set(op);
                model.apply(op, pen);
                sol = match op {
                    Op::Tol(v) => sol.tolerance(cast(v)),
                    Op::K(v) => sol.K(v),
                    Op::Ws(v) => sol.ws_start_size(v),
                    Op::Iter(v) => sol.max_iterations(v),
                    Op::Epochs(v) => sol.max_epochs(v),
                    Op::Accel(v) => sol.use_acceleration(v),
                    Op::Verbose(v) => sol.verbose(v),
                    _ => sol,
                };
                match op {
                    Op::Tol(v) => want.3 = cast(v),
                    Op::K(v) => want.4 = v,
                    Op::Ws(v) => want.0 = v,
                    Op::Iter(v) => want.1 = v,
                    Op::Epochs(v) => want.2 = v,
                    Op::Accel(v) => want.5 = v,
                    Op::Verbose(v) => want.6 = v,
                    _ => {}
                }
            }
            let got = (sol.ws_start_size, sol.max_iterations, sol.max_epochs, sol.tolerance, sol.K, sol.use_acceleration, sol.verbose);
            if got != want {
                return Err(format!("after {:?} the solver holds {:?}, expected {:?}", &c.ops[..i], got, want));
            }
            let off = model.offences(pen);
            for how in 0..if i == c.ops.len() { 3 } else { 2 } {
                match par.verdict(how) {
                    Ok(v) => {
                        if !off.is_empty() {
                            return Err(format!("{}: accepted after {:?}, expected a rejection with one of {:?}", name, &c.ops[..i], off));
                        }
                        if v != model {
                            return Err(format!("{}: after {:?} the parameters are {:?}, expected {:?}", name, &c.ops[..i], v, model));
                        }
                    }
                    Err(b) => {
                        rejected += 1;
                        if if b == Bad::Panic { off.is_empty() } else { !off.contains(&b) } {
                            return Err(format!("{}: rejected with {:?} after {:?}, expected one of {:?}", name, b, &c.ops[..i], off));
                        }
                    }
                }
            }
        }
        // the same values set in another order on another constructor
        let mut twin = Par::<F>::new(pen, c.multi, c.how + 1);
        for op in model.ops() {
            twin = twin.set(op);
        }
        if twin != par {
            return Err(format!("{}: the parameters after {:?} differ from the same values set at once: {:?} and {:?}", name, c.ops, par, twin));
        }
        // fit: same verdict, and the generic solver's coefficients
        let pb = &c.pb;
        let m = Model {
            pen,
            alpha: model.alpha.to_f64().unwrap(),
            ratio: model.second.to_f64().unwrap(),
            gamma: if pen == Pen::MCP { model.second.to_f64().unwrap() } else { 3.0 },
            logistic: false,
            multi: c.multi,
        };
        let off = model.offences(pen);
        let mut info = Info::new(!c.ops.is_empty())
            .label(name.clone())
            .label(if c.single_precision { "f32" } else { "f64" })
            .label_if(rejected > 0, "rejected at some point")
            .label_if(off.len() > 1, "several offences at the end");
        if off.is_empty() && ((pen == Pen::MCP && !mcp_domain(pb, &m)) || model.iter * model.epochs * pb.n * pb.p * pb.t > 4_000_000) {
            return Ok(info.label("fit skipped"));
        }
        let xs = XStore::<F>::build(pb, c.layout.x, c.layout.seed);
        let ys = YStore::<F>::build(pb, c.layout.y, !c.multi || (pb.t == 1 && c.layout.seed % 2 == 1));
        let r: Result<Vec<f64>, EstimatorError> = if c.multi {
            dispatch2(&xs, &ys, &par).map(|w| w.iter().map(|v| v.to_f64().unwrap()).collect())
        } else {
            dispatch1(&xs, &ys, &par).map(|w| w.iter().map(|v| v.to_f64().unwrap()).collect())
        };
        match r {
            Err(e) => {
                if !off.contains(&bad(&e)) {
                    return Err(format!("{}: fit failed with {:?}, expected {:?}", name, e, off));
                }
                info = info.label("fit rejected");
            }
            Ok(w) => {
                if !off.is_empty() {
                    return Err(format!("{}: fit succeeded, expected {:?}", name, off));
                }
                let k = Knobs {
                    ws: model.ws,
                    k: model.k,
                    accel: model.accel,
                    max_iter: model.iter,
                    max_epochs: model.epochs,
                    tol: model.tol.to_f64().unwrap(),
                    verbose: false,
                };
                let v = fit_stores(&xs, &ys, pb, &m, &k, Api::Solver)?;
                if w.len() != v.len() {
                    return Err(format!("{}: {} coefficients, the solver has {}", name, w.len(), v.len()));
                }
                let big = v.iter().fold(0.0f64, |s, x| s.max(x.abs()));
                let rel = if c.single_precision { 1e-4 } else { 1e-9 };
                if !(dist(&w, &v) <= rel * big) {
                    return Err(format!("{}: the fit differs from the generic solver's by {:e} (largest coefficient {:e}; {:?})", name, dist(&w, &v), big, model));
                }
                info = info.label_if(big > 0.0, "non-zero fit compared with the solver").label_if(model.verbose, "verbose fit");
            }
        }
        Ok(info)
    }
}

fn gen_op(g: &mut G, pen: Pen, gmin: f64, amax: f64) -> Op {
    match g.weighted(&[4, 4, 3, 3, 3, 2, 2, 1, 2]) {
        0 => Op::Alpha(match g.int(0, 6) {
            0 => -1.0,
            1 => -g.log_range(1e-12, 1e3),
            2 => 0.0,
            _ => amax * g.log_range(0.01, 1.2),
        }),
        1 => Op::Second(if pen == Pen::MCP {
            match g.int(0, 8) {
                0 => 0.0,
                1 => 0.999999,
                2 => 1.0,
                3 => -g.unit(),
                4 => f64::INFINITY,
                5 => g.unit(),
                _ => gmin * g.range(1.2, 5.0),
            }
        } else {
            match g.int(0, 7) {
                0 => -0.1,
                1 => -g.log_range(1e-9, 10.0),
                2 => 1.0 + 2e-7,
                3 => 1.0 + g.log_range(1e-6, 10.0),
                4 => 0.0,
                5 => 1.0,
                _ => g.unit(),
            }
        }),
        2 => Op::Tol(match g.int(0, 4) {
            0 => -1e-9,
            1 => -g.unit(),
            2 => 0.0,
            _ => g.log_range(1e-9, 1e-2),
        }),
        3 => Op::K(if g.bool(0.2) { 0 } else { g.log_int(1, 30) }),
        4 => Op::Ws(if g.bool(0.2) { 0 } else { g.log_int(1, 60) }),
        5 => Op::Iter(g.int(0, 12)),
        6 => Op::Epochs(g.int(0, 40)),
        7 => Op::Accel(g.bool(0.5)),
        _ => Op::Verbose(g.bool(0.1)),
    }
}

impl Property for C14 {
    type Case = Case;
    const ID: &'static str = "C14";
    fn rule(&self) -> String {
        "random history of builder calls (valid and invalid values) on one of the six parameter sets in either precision, judged after every call against a model of its fields and of the validation rules, then fitted on a random dataset and compared with the generic solver; non-trivial = at least one builder call".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["no NaN and no negative zero among the hyperparameters; when several are invalid any of them may be named".into()]
    }
    fn gen(&self, g: &mut G) -> Case {
        let multi = g.bool(0.5);
        let s = Shape { max_n: 25, max_p: 30, large: 0.004, tail: [1, 1, 1, 1, 0, 2], ..if multi { Shape::multi() } else { Shape::single() } };
        let pb = gen_problem(g, s);
        let pen = g.pick(&[Pen::L1, Pen::EN, Pen::MCP]);
        let lmin = pb.lips().into_iter().filter(|&l| l > 0.0).fold(1.0, f64::min);
        let am = pb.alpha_max();
        let am = if am > 0.0 { am } else { 1.0 };
        let mut ops: Vec<Op> = (0..g.int(0, 9)).map(|_| gen_op(g, pen, 1.0 / lmin, am)).collect();
        // most histories end with something that can be fitted quickly
        if g.bool(0.7) {
            ops.push(Op::Alpha(am * g.log_range(0.01, 0.9)));
            if pen == Pen::MCP {
                ops.push(Op::Second(g.range(1.2, 4.0) / lmin));
            } else if g.bool(0.8) {
                ops.push(Op::Second(g.unit()));
            }
            ops.push(Op::Verbose(g.bool(0.05)));
            ops.push(Op::Tol(g.log_range(1e-8, 1e-3) * pb.scale()));
            ops.push(Op::K(g.int(1, 8)));
            ops.push(Op::Ws(g.log_int(1, 20)));
            if g.bool(0.8) {
                ops.push(Op::Iter(g.int(1, 6)));
                ops.push(Op::Epochs(g.int(1, 30)));
            }
        }
        Case { pen, multi, single_precision: g.bool(0.35), how: g.int(0, 2), ops, layout: Layout::gen(g), pb }
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        for i in 0..c.ops.len() {
            let mut q = c.clone();
            q.ops.remove(i);
            v.push(q);
        }
        for pb in shrink_problem(&c.pb) {
            v.push(Case { pb, ..c.clone() });
        }
        for layout in c.layout.shrink() {
            v.push(Case { layout, ..c.clone() });
        }
        if c.single_precision {
            v.push(Case { single_precision: false, ..c.clone() });
        }
        if c.how != 0 {
            v.push(Case { how: 0, ..c.clone() });
        }
        v
    }
    fn check(&self, c: &Case) -> Outcome {
        if c.single_precision {
            self.run::<f32>(c)
        } else {
            self.run::<f64>(c)
        }
    }
    fn cases(&self) -> (usize, usize) {
        (150_000, 6_000_000)
    }
}
fn main() {
    run(C14)
}
