use harness::prelude::*;
use harness::spy::*;

struct C11;
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    fit: FitCase,
    /// other settings that have to reach the same solution
    others: Vec<Knobs>,
    /// epochs of the single outer iteration
    epochs: usize,
}

impl Property for C11 {
    type Case = Case;
    const ID: &'static str = "C11";
    fn rule(&self) -> String {
        "random problem fitted under two to four knob settings (working-set size below/at/above the number of features, window length, acceleration, verbosity), with zero budgets, with one outer iteration, and with a tolerance above the initial violation; non-trivial = plain coordinate descent converges on it, the solution is unique and not zero".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["where the solution is not unique, convex models are compared by objective and predictions".into(), "the number of proximal steps of one outer iteration is counted for penalties scored by the subdifferential distance".into()]
    }
    fn gen(&self, g: &mut G) -> Case {
        let kind = g.weighted(&[4, 4, 2]);
        let mut s = match kind {
            0 => Shape::single(),
            1 => Shape::multi(),
            _ => Shape::labels(),
        };
        s.large = 0.002;
        s.max_p = 60;
        if g.bool(0.5) {
            s.min_n = 8;
            s.max_p = 14;
        }
        let pens: &[Pen] = match kind {
            0 => &[Pen::L1, Pen::EN, Pen::MCP, Pen::L05],
            1 => &[Pen::L1, Pen::EN, Pen::MCP],
            _ => &[Pen::L1, Pen::EN, Pen::EN, Pen::MCP],
        };
        let mut fit = gen_fit_case(g, s, pens, kind == 1);
        long_iterations(&mut fit);
        if fit.model.nonconvex() {
            (fit.knobs.max_iter, fit.knobs.max_epochs) = (200, 2000);
        }
        let others = (0..g.int(1, 3))
            .map(|_| {
                let k = gen_knobs(g, &fit.pb, kind == 2);
                Knobs { tol: fit.knobs.tol, max_iter: fit.knobs.max_iter, max_epochs: fit.knobs.max_epochs, verbose: g.bool(0.06), ..k }
            })
            .collect();
        Case { fit, others, epochs: g.int(1, 30) }
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v: Vec<Case> = c.fit.shrink().into_iter().map(|fit| Case { fit, ..c.clone() }).collect();
        for i in 0..c.others.len() {
            if c.others.len() > 1 {
                let mut q = c.clone();
                q.others.remove(i);
                v.push(q);
            }
            for k in shrink_knobs(&c.others[i]) {
                let mut q = c.clone();
                q.others[i] = k;
                v.push(q);
            }
            if c.others[i].verbose {
                let mut q = c.clone();
                q.others[i].verbose = false;
                v.push(q);
            }
        }
        for e in [1, c.epochs / 2] {
            if e > 0 && e < c.epochs {
                v.push(Case { epochs: e, ..c.clone() });
            }
        }
        v
    }
    fn check(&self, c: &Case) -> Outcome {
        let (pb, m, k) = (&c.fit.pb, &c.fit.model, &c.fit.knobs);
        let run = |k: Knobs| FitCase { knobs: k, ..c.fit.clone() }.fit();
        // zero budgets
        for (what, kz) in [("iterations", Knobs { max_iter: 0, ..*k }), ("epochs", Knobs { max_epochs: 0, max_iter: 3, ..*k })] {
            if run(kz)?.iter().any(|&v| v != 0.0) {
                return Err(format!("zero {}: coefficients are not all zero", what));
            }
        }
        // one outer iteration: only the most violating features move
        let zero = vec![0.0; pb.p * pb.t];
        let viol = violations(pb, m, &zero);
        let ws = k.ws.min(pb.p);
        let mut sorted = viol.clone();
        sorted.sort_by(|a, b| b.partial_cmp(a).unwrap());
        let cut = sorted[ws - 1];
        let unit = if m.pen == Pen::L05 { 1.0 } else { 0.0 };
        let gsl = slack(pb, m, &zero, f64::EPSILON);
        let near = |j: usize| {
            let l = pb.lip(j) * if m.logistic { 0.25 } else { 1.0 };
            if unit == 1.0 && l > 0.0 { gsl / l + 1e-9 * sorted[0] } else { gsl }
        };
        let tiny = Knobs { tol: k.tol.min(1e-3 * sorted[0]).max(0.0), max_iter: 1, max_epochs: c.epochs, ..*k };
        let w1 = run(tiny)?;
        let moved: Vec<usize> = (0..pb.p).filter(|&j| w1[j * pb.t..(j + 1) * pb.t].iter().any(|&v| v != 0.0)).collect();
        if moved.len() > ws {
            return Err(format!("one outer iteration moved {} features, the working set has {}", moved.len(), ws));
        }
        for &j in &moved {
            if !(viol[j] >= cut - near(j) - near(sorted.len() - 1)) {
                return Err(format!("one outer iteration moved feature {} whose violation {:e} is not among the {} largest (cut {:e})", j, viol[j], ws, cut));
            }
        }
        // the first epoch visits the working set, all of it, once
        if m.pen != Pen::L05 {
            let visits = |e: usize| -> Result<usize, String> {
                let (_, log) = spied_fit(pb, m, &Knobs { max_epochs: e, ..tiny }, &c.fit.layout)?;
                Ok(log.iter().filter(|e| matches!(e, Event::Prox { .. })).count())
            };
            let sure = viol.iter().filter(|&&v| v > gsl && v >= cut - gsl).count().min(ws);
            let n1 = visits(1)?;
            if sorted[0] > tiny.tol + gsl && !(n1 >= sure && n1 <= ws) {
                return Err(format!("the first epoch visits {} features, the working set has {} ({} of them violating)", n1, ws, sure));
            }
            let ne = visits(c.epochs.min(12))?;
            if ne > ws * c.epochs.min(12) {
                return Err(format!("{} proximal steps for {} epochs over {} features", ne, c.epochs, ws));
            }
        }
        // a tolerance above the initial violation
        let w = run(Knobs { tol: sorted[0] * (1.0 + 1e-9) + 2.0 * near(0).max(gsl), ..*k })?;
        if m.pen != Pen::L05 && w.iter().any(|&v| v != 0.0) {
            return Err("the zero start meets the tolerance, yet coefficients moved".into());
        }
        let mut info = Info::new(false)
            .label(format!("{:?}{}{}", m.pen, if m.multi { " multi" } else { "" }, if m.logistic { " logistic" } else { "" }))
            .label_if(!moved.is_empty() && moved.len() == ws && ws < pb.p, "first working set fully used")
            .label_if(moved.len() < pb.p && ws < pb.p, "first working set is a strict subset");
        if !easy(pb, m, k.tol) {
            return Ok(info.label("screened"));
        }
        if m.nonconvex() && strong_convexity(pb, m).is_none() {
            return Ok(info.label("several stationary points"));
        }
        let a = c.fit.fit()?;
        for o in &c.others {
            let b = run(*o)?;
            let how = compare(pb, m, k.tol, &a, &b).map_err(|e| format!("{:?} against {:?}: {}", k, o, e))?;
            if how == Agree::Unique && a.iter().any(|&v| v != 0.0) {
                info.nontrivial = true;
            }
            info = info
                .label_if(o.verbose, "verbose")
                .label_if((o.ws < pb.p) != (k.ws < pb.p), "working set against full set")
                .label_if(o.accel != k.accel, "accelerated against plain")
                .label_if(o.accel && k.accel && o.k != k.k, "two window lengths");
        }
        Ok(info)
    }
    fn cases(&self) -> (usize, usize) {
        (150_000, 4_000_000)
    }
}
fn main() {
    run(C11)
}
