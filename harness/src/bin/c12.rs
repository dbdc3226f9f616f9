use harness::prelude::*;

struct C12;
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Nest {
    /// elastic net with l1_ratio 1 is the Lasso
    EnLasso,
    /// MCP with infinite gamma is the Lasso
    McpLasso,
    /// multi-task model on one task is the single-task model
    OneTask,
    /// elastic net with l1_ratio 0 is ridge regression
    Ridge,
    /// alpha 0 is least squares (full column rank)
    Ols,
    /// with l1_ratio 0 the tasks decouple
    Decoupled,
    /// tasks with zero targets change nothing
    ZeroTasks,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    nest: Nest,
    fit: FitCase,
    /// layout, knobs and entry point of the other side
    layout: Layout,
    knobs: Knobs,
    api: Api,
}

fn single(m: Model) -> Model {
    Model { multi: false, ..m }
}

impl Property for C12 {
    type Case = Case;
    const ID: &'static str = "C12";
    fn rule(&self) -> String {
        "random problem and a pair of models one of which contains the other (or a closed form), each fitted with its own knobs, layout and entry point; non-trivial = plain coordinate descent converges on it, the solution is unique (so coefficients are compared) and not zero".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["where the solution is not unique, convex models are compared by objective and predictions".into()]
    }
    fn gen(&self, g: &mut G) -> Case {
        use Nest::*;
        let nest = g.pick(&[EnLasso, EnLasso, McpLasso, McpLasso, OneTask, OneTask, OneTask, Ridge, Ridge, Ols, Decoupled, ZeroTasks]);
        let multi = match nest {
            OneTask | Decoupled | ZeroTasks => true,
            _ => g.bool(0.5),
        };
        let logistic = !multi && matches!(nest, EnLasso | McpLasso) && g.bool(0.25);
        let mut s = if logistic { Shape::labels() } else if multi { Shape::multi() } else { Shape::single() };
        s.large = 0.002;
        s.max_p = 40;
        if nest == OneTask {
            s.max_t = 1;
        }
        if matches!(nest, Ols | Ridge) || g.bool(0.6) {
            s.min_n = 6;
            s.max_p = 12;
        }
        let pens: &[Pen] = match nest {
            EnLasso | Ridge | Decoupled => &[Pen::EN],
            McpLasso => &[Pen::MCP],
            Ols => &[Pen::L1, Pen::EN, Pen::MCP],
            _ => &[Pen::L1, Pen::EN, Pen::MCP],
        };
        let mut fit = gen_fit_case(g, s, pens, multi);
        long_iterations(&mut fit);
        match nest {
            EnLasso => fit.model.ratio = 1.0,
            McpLasso => fit.model.gamma = f64::INFINITY,
            Ridge | Decoupled => fit.model.ratio = 0.0,
            Ols => {
                fit.model.alpha = 0.0;
                if fit.model.pen == Pen::MCP && fit.model.gamma.is_infinite() {
                    fit.model.pen = Pen::L1;
                }
            }
            _ => {}
        }
        if nest == EnLasso && fit.model.alpha > 0.0 {
            // alpha was drawn for another ratio
            let a = null_alpha(&fit.pb, logistic);
            fit.model.alpha = if a > 0.0 { a } else { 1.0 } * g.log_range(0.01, 1.1);
        }
        if fit.model.nonconvex() {
            (fit.knobs.max_iter, fit.knobs.max_epochs) = (200, 2000);
        }
        let other = gen_knobs(g, &fit.pb, logistic);
        let knobs = Knobs { tol: fit.knobs.tol, max_iter: fit.knobs.max_iter, max_epochs: fit.knobs.max_epochs, ..other };
        Case { nest, fit, layout: Layout::gen(g), knobs, api: if g.bool(0.5) { Api::Estimator } else { Api::Solver } }
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v: Vec<Case> = c.fit.shrink().into_iter().map(|fit| Case { fit, ..c.clone() }).collect();
        for layout in c.layout.shrink() {
            v.push(Case { layout, ..c.clone() });
        }
        for knobs in shrink_knobs(&c.knobs) {
            v.push(Case { knobs, ..c.clone() });
        }
        use Nest::*;
        v.retain(|c| match c.nest {
            EnLasso => c.fit.model.ratio == 1.0,
            McpLasso => c.fit.model.gamma.is_infinite(),
            Ridge | Decoupled => c.fit.model.ratio == 0.0,
            Ols => c.fit.model.alpha == 0.0,
            OneTask => c.fit.pb.t == 1,
            _ => true,
        });
        v
    }
    fn check(&self, c: &Case) -> Outcome {
        use Nest::*;
        let (pb, m, tol) = (&c.fit.pb, &c.fit.model, c.fit.knobs.tol);
        let skip = |l: &str| Ok(Info::new(false).label(l.to_string()));
        if !easy(pb, m, tol) {
            return skip("screened");
        }
        if m.pen == Pen::MCP && m.nonconvex() && strong_convexity(pb, m).is_none() {
            return skip("several stationary points");
        }
        let a = c.fit.fit()?;
        let lasso = Model { pen: Pen::L1, ..*m };
        let other = |pb: &Problem, m: &Model| fit(pb, m, &c.knobs, &c.layout, c.api);
        let b = match c.nest {
            EnLasso | McpLasso => other(pb, &lasso)?,
            OneTask => other(pb, &single(*m))?,
            Ols | Ridge => {
                let cols: Vec<usize> = (0..pb.p).filter(|&j| pb.lip(j) > 0.0).collect();
                let k = cols.len();
                if k == 0 || strong_convexity(pb, m).is_none() || k > 60 {
                    return skip("no closed form");
                }
                let mut gm = gram(pb, &cols);
                for i in 0..k {
                    gm[i * k + i] += if c.nest == Ridge { m.alpha } else { 0.0 };
                }
                let rhs = gradient(pb, false, &vec![0.0; pb.n * pb.t]);
                let b: Vec<f64> = cols.iter().flat_map(|&j| rhs[j * pb.t..(j + 1) * pb.t].iter().map(|v| -v).collect::<Vec<_>>()).collect();
                let sol = spd_solve(gm, k, b, pb.t);
                let mut w = vec![0.0; pb.p * pb.t];
                for (i, &j) in cols.iter().enumerate() {
                    w[j * pb.t..(j + 1) * pb.t].copy_from_slice(&sol[i * pb.t..(i + 1) * pb.t]);
                }
                // the closed form must itself be accurate for the comparison to mean something
                if max_excess(pb, m, &w, f64::EPSILON) > tol {
                    return skip("closed form inaccurate");
                }
                w
            }
            Decoupled => {
                let mut w = vec![0.0; pb.p * pb.t];
                for k in 0..pb.t {
                    let q = pb.keep_tasks(&[k]);
                    if !easy(&q, &single(*m), tol) {
                        return skip("screened");
                    }
                    // each row violation is at most sqrt(t) times the largest task violation
                    let kn = Knobs { tol: tol / (pb.t as f64).sqrt(), ..c.knobs };
                    let wk = fit(&q, &single(*m), &kn, &c.layout, c.api)?;
                    for j in 0..pb.p {
                        w[j * pb.t + k] = wk[j];
                    }
                }
                w
            }
            ZeroTasks => {
                // zero tasks appended before and after
                let t2 = pb.t + 2;
                let mut q = Problem { t: t2, y: vec![0.0; pb.n * t2], ..pb.clone() };
                for i in 0..pb.n {
                    for k in 0..pb.t {
                        q.y[i * t2 + k + 1] = pb.yit(i, k);
                    }
                }
                let wq = other(&q, m)?;
                let mut w = vec![0.0; pb.p * pb.t];
                for j in 0..pb.p {
                    if wq[j * t2] != 0.0 || wq[j * t2 + t2 - 1] != 0.0 {
                        return Err(format!("feature {} has a coefficient for a task without targets", j));
                    }
                    for k in 0..pb.t {
                        w[j * pb.t + k] = wq[j * t2 + k + 1];
                    }
                }
                w
            }
        };
        let how = compare(pb, m, tol, &a, &b).map_err(|e| format!("{:?}: {}", c.nest, e))?;
        let nz = a.iter().any(|&v| v != 0.0);
        Ok(Info::new(how == Agree::Unique && nz)
            .label(format!("{:?} {:?}{}", c.nest, how, if m.multi { " multi" } else { "" }))
            .label_if(m.logistic, "logistic")
            .label_if(nz, "non-zero solution"))
    }
    fn cases(&self) -> (usize, usize) {
        (300_000, 8_000_000)
    }
}
fn main() {
    run(C12)
}
