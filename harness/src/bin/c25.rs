use harness::prelude::*;
use harness::spy::*;
use std::collections::BTreeSet;

/// The features one outer iteration works on.
struct C25;
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    fit: FitCase,
    /// outer iterations before the one that is looked at
    before: usize,
    epochs: usize,
}

impl Property for C25 {
    type Case = Case;
    const ID: &'static str = "C25";
    fn rule(&self) -> String {
        "random problem, model and knobs; one outer iteration (the first to the seventh) seen as the difference between two budgets: its size, members and visits against the violations at its start, recomputed; non-trivial = the iteration runs from non-zero coefficients with a working set smaller than the number of features".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["features whose violation ties with the cut up to rounding may be in or out; visits are read off the gradient request before each proximal step, for penalties scored by their distance".into()]
    }
    fn gen(&self, g: &mut G) -> Case {
        let small = |s: Shape| Shape { max_n: 30, max_p: 50, min_p: 2, large: 0.001, ..s };
        let mut fit = match g.weighted(&[4, 3, 2]) {
            0 => gen_fit_case(g, small(Shape::single()), &[Pen::L1, Pen::EN, Pen::MCP, Pen::L05], false),
            1 => gen_fit_case(g, small(Shape::multi()), &[Pen::L1, Pen::EN, Pen::MCP], true),
            _ => gen_fit_case(g, small(Shape::labels()), &[Pen::L1, Pen::EN, Pen::MCP], false),
        };
        if g.bool(0.6) {
            let a = g.pick(&[0.3, 0.1, 0.01]);
            fit.model.alpha *= a;
            if fit.model.pen == Pen::MCP && fit.model.alpha == 0.0 {
                fit.model.pen = Pen::L1;
            }
        }
        if g.bool(0.1) && !fit.model.logistic {
            // badly scaled
            let (a, b) = (10f64.powi(g.int(0, 24) as i32 - 12), 10f64.powi(g.int(0, 24) as i32 - 12));
            fit.pb.x.iter_mut().for_each(|v| *v *= a);
            fit.pb.y.iter_mut().for_each(|v| *v *= b);
            fit.model.alpha *= a * b;
        }
        fit.knobs.ws = match g.weighted(&[3, 3, 2, 1]) {
            0 => 1,
            1 => g.int(1, fit.pb.p.min(6)),
            2 => g.int(1, fit.pb.p),
            _ => fit.pb.p + g.int(0, 2),
        };
        fit.knobs.tol = if g.bool(0.5) { 0.0 } else { fit.knobs.tol };
        fit.api = Api::Solver;
        Case { fit, before: g.pick(&[0, 1, 1, 2, 2, 3, 4, 6]), epochs: g.pick(&[1, 1, 2, 3, 6, 12, 25]) }
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v: Vec<Case> = c.fit.shrink().into_iter().filter(|f| f.api == Api::Solver).map(|fit| Case { fit, ..c.clone() }).collect();
        for b in 0..c.before {
            v.push(Case { before: b, ..c.clone() });
        }
        for e in [1, c.epochs / 2, c.epochs - 1] {
            if e > 0 && e < c.epochs {
                v.push(Case { epochs: e, ..c.clone() });
            }
        }
        v
    }
    fn check(&self, c: &Case) -> Outcome {
        let (pb, m, k) = (&c.fit.pb, &c.fit.model, &c.fit.knobs);
        let (p, t) = (pb.p, pb.t);
        let knobs = |i: usize| Knobs { max_iter: i, max_epochs: c.epochs, ..*k };
        let (w0, log0) = spied_fit(pb, m, &knobs(c.before), &c.fit.layout)?;
        let (w1, log1) = spied_fit(pb, m, &knobs(c.before + 1), &c.fit.layout)?;
        let row = |w: &[f64], j: usize| w[j * t..(j + 1) * t].to_vec();
        let on: Vec<bool> = (0..p).map(|j| row(&w0, j).iter().any(|&v| v != 0.0)).collect();
        let nnz = on.iter().filter(|&&b| b).count();
        let size = k.ws.min(p).max((2 * nnz).min(p));
        let viol = violations(pb, m, &w0);
        let lips = pb.lips();
        let f = if m.logistic { 0.25 } else { 1.0 };
        // rounding of the running prediction and of the gradient
        let ab = Problem { x: pb.x.iter().map(|v| v.abs()).collect(), ..pb.clone() };
        let mut big = 0.0f64;
        let mut grow = |w: &[f64]| {
            let aw: Vec<f64> = w.iter().map(|v| v.abs()).collect();
            big = big.max(ab.xw(&aw).into_iter().fold(0.0, f64::max));
        };
        grow(&w0);
        for i in 1..c.before {
            grow(&FitCase { knobs: knobs(i), ..c.fit.clone() }.fit()?);
        }
        let sl = slack(pb, m, &w0, f64::EPSILON);
        let margin: Vec<f64> = (0..p)
            .map(|j| {
                let g = sl + 1e-10 * lips[j].sqrt() * (big + 1e-3 * (m.logistic as u8 as f64));
                if m.pen == Pen::L05 {
                    if lips[j] > 0.0 { g / (lips[j] * f) + 1e-6 * viol[j] } else { 0.0 }
                } else {
                    g + 1e-12 * viol[j]
                }
            })
            .collect();
        let top = (0..p).map(|j| viol[j] + margin[j]).fold(0.0, f64::max);
        let mm = margin.iter().cloned().fold(0.0, f64::max);
        // the best violation a feature outside the working set can have
        let free = size - nnz;
        let mut off: Vec<usize> = (0..p).filter(|&j| !on[j]).collect();
        off.sort_by(|&a, &b| viol[b].partial_cmp(&viol[a]).unwrap());
        let cut = if free == 0 { f64::INFINITY } else { viol[off[free - 1]] };
        // a tie for L0.5 sits where its operator jumps
        let ties = m.pen == Pen::L05;
        let judge = |what: &str, set: &BTreeSet<usize>| -> Result<(), String> {
            if set.len() > size {
                return Err(format!(
                    "outer iteration {} {} {} features; {} were asked for, {} coefficients are non-zero, so the working set has {}",
                    c.before + 1, what, set.len(), k.ws, nnz, size
                ));
            }
            if ties {
                return Ok(());
            }
            for &j in set {
                if !on[j] && !(viol[j] >= cut - margin[j] - mm) {
                    return Err(format!(
                        "outer iteration {} {} feature {} whose violation {:e} is not among the {} largest of the zero features (cut {:e})",
                        c.before + 1, what, j, viol[j], free, cut
                    ));
                }
            }
            Ok(())
        };
        let moved: BTreeSet<usize> = (0..p).filter(|&j| row(&w0, j) != row(&w1, j)).collect();
        judge("moves", &moved)?;
        let mut full = false;
        if m.pen != Pen::L05 {
            let steps = |log: &[Event]| {
                let mut last = None;
                let mut v = vec![];
                for e in log {
                    match e {
                        Event::Grad { j, .. } => last = Some(*j),
                        Event::Prox { .. } => v.push(last),
                        _ => {}
                    }
                }
                v
            };
            let (s0, s1) = (steps(&log0), steps(&log1));
            if s0.len() > s1.len() {
                return Err("a larger outer budget took fewer proximal steps".into());
            }
            let tail = &s1[s0.len()..];
            if tail.iter().any(|j| j.is_none()) {
                return Err("a proximal step without a gradient".into());
            }
            let visited: BTreeSet<usize> = tail.iter().map(|j| j.unwrap()).collect();
            judge("visits", &visited)?;
            if tail.len() > size * c.epochs {
                return Err(format!("{} proximal steps in {} epochs over {} features", tail.len(), c.epochs, size));
            }
            // does the iteration run at all?
            if top - 2.0 * mm > k.tol + 10.0 * mm {
                if let Some(j) = (0..p).find(|&j| on[j] && !visited.contains(&j)) {
                    return Err(format!("outer iteration {} leaves out feature {}, whose coefficient is not zero", c.before + 1, j));
                }
                let due = off.iter().take(free).filter(|&&j| viol[j] > margin[j] + mm && lips[j] > 0.0).count();
                let new = visited.iter().filter(|&&j| !on[j]).count();
                if new < due {
                    return Err(format!(
                        "outer iteration {} visits {} features with a zero coefficient, {} violating ones are due ({} asked for, {} non-zero)",
                        c.before + 1, new, due, k.ws, nnz
                    ));
                }
                full = true;
            }
        }
        Ok(Info::new(nnz > 0 && size < p && (full || !moved.is_empty()))
            .label(format!("{:?}{}{}", m.pen, if m.multi { " multi" } else { "" }, if m.logistic { " logistic" } else { "" }))
            .label_if(nnz > 0, "from non-zero coefficients")
            .label_if(size > k.ws, "grown with the support")
            .label_if(size == p, "all features")
            .label_if(full, "visits counted"))
    }
    fn cases(&self) -> (usize, usize) {
        (600_000, 20_000_000)
    }
}
fn main() {
    run(C25)
}
