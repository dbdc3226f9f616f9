use harness::prelude::*;

struct C05;
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    fit: FitCase,
    /// epochs of the single-iteration history
    epochs: usize,
    /// outer iterations of the second history and its epochs per iteration
    iters: usize,
    inner: usize,
}

fn obj_slack(pb: &Problem, w: &[f64], o0: f64) -> f64 {
    let absw: Vec<f64> = w.iter().map(|v| v.abs()).collect();
    let ab = Problem { x: pb.x.iter().map(|v| v.abs()).collect(), ..pb.clone() };
    let big = norm(&ab.xw(&absw));
    let ny = norm(&pb.y);
    1e-12 * o0 + 500.0 * f64::EPSILON * big * (ny + 1e-3 * big) / pb.n as f64
}

impl C05 {
    fn history(&self, c: &FitCase, what: &str, n: usize, knobs: impl Fn(usize) -> Knobs) -> Result<(f64, Vec<Vec<f64>>), String> {
        let (pb, m) = (&c.pb, &c.model);
        let mut prev = f64::INFINITY;
        let o0 = objective(pb, m, &vec![0.0; pb.p * pb.t]);
        let mut ws: Vec<Vec<f64>> = vec![];
        for e in 0..=n {
            let f = FitCase { knobs: knobs(e), ..c.clone() };
            let w = f.fit()?;
            if let Some(v) = w.iter().find(|v| !v.is_finite()) {
                return Err(format!("{} {}: non-finite coefficient {}", what, e, v));
            }
            if e == 0 && w.iter().any(|&v| v != 0.0) {
                return Err(format!("{} 0: the all-zero start is not returned", what));
            }
            let o = objective(pb, m, &w);
            let sl = obj_slack(pb, &w, o0) + ws.last().map_or(0.0, |v| obj_slack(pb, v, o0));
            if !(o <= prev + sl) {
                return Err(format!("objective rises from {:e} to {:e} when the budget grows to {} {}", prev, o, e, what));
            }
            prev = o;
            ws.push(w);
        }
        Ok((prev, ws))
    }
}

impl Property for C05 {
    type Case = Case;
    const ID: &'static str = "C05";
    fn rule(&self) -> String {
        "random problem of any model, fitted with every epoch budget 0..E of one outer iteration and every outer-iteration budget 0..I; non-trivial = the last objective is below the first and at least three budgets gave different coefficients".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["MCP with gamma * L_j >= 1.19; an increase counts beyond the rounding of the objective".into()]
    }
    fn gen(&self, g: &mut G) -> Case {
        let small = |s: Shape| Shape { max_n: 30, max_p: 30, large: 0.004, ..s };
        let mut fit = match g.weighted(&[4, 3, 2]) {
            0 => gen_fit_case(g, small(Shape::single()), &[Pen::L1, Pen::EN, Pen::MCP, Pen::L05], false),
            1 => gen_fit_case(g, small(Shape::multi()), &[Pen::L1, Pen::EN, Pen::MCP], true),
            _ => gen_fit_case(g, small(Shape::labels()), &[Pen::L1, Pen::EN, Pen::MCP], false),
        };
        fit.knobs.accel = g.bool(0.85);
        fit.knobs.tol *= g.pick(&[1.0, 1e-4]);
        let w = fit.knobs.k + 1;
        let big = fit.pb.n * fit.pb.p * fit.pb.t > 3000;
        let epochs = if big { w + 1 } else { (w * g.int(1, 4) + g.int(0, 2)).min(45) };
        Case { fit, epochs, iters: g.int(1, if big { 3 } else { 9 }), inner: g.int(1, 25) }
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v: Vec<Case> = c.fit.shrink().into_iter().map(|fit| Case { fit, ..c.clone() }).collect();
        for e in [c.epochs / 2, c.epochs.saturating_sub(1)] {
            if e < c.epochs {
                v.push(Case { epochs: e, ..c.clone() });
            }
        }
        for e in [0, c.iters.saturating_sub(1)] {
            if e < c.iters {
                v.push(Case { iters: e, ..c.clone() });
            }
        }
        for e in [1, c.inner / 2, c.inner - 1] {
            if e < c.inner && e > 0 {
                v.push(Case { inner: e, ..c.clone() });
            }
        }
        v
    }
    fn check(&self, c: &Case) -> Outcome {
        let k = c.fit.knobs;
        let (o1, w1) = self.history(&c.fit, "epochs", c.epochs, |e| Knobs { max_iter: 1, max_epochs: e, ..k })?;
        let (o2, w2) = self.history(&c.fit, "outer iterations", c.iters, |e| Knobs { max_iter: e, max_epochs: c.inner, ..k })?;
        let o0 = objective(&c.fit.pb, &c.fit.model, &vec![0.0; c.fit.pb.p * c.fit.pb.t]);
        let moves = w1.windows(2).chain(w2.windows(2)).filter(|p| p[0] != p[1]).count();
        let mut accepted = false;
        if k.accel && c.epochs > k.k {
            let plain = FitCase { knobs: Knobs { max_iter: 1, max_epochs: k.k + 1, accel: false, ..k }, ..c.fit.clone() }.fit()?;
            accepted = plain != w1[k.k + 1];
        }
        Ok(Info::new(o1.min(o2) < o0 && moves >= 3)
            .label(format!("{:?}{}{}", c.fit.model.pen, if c.fit.model.multi { " multi" } else { "" }, if c.fit.model.logistic { " logistic" } else { "" }))
            .label_if(k.accel, "accelerated")
            .label_if(accepted, "extrapolation adopted in the first window")
            .label_if(c.fit.layout.x.sparse(), "sparse"))
    }
    fn cases(&self) -> (usize, usize) {
        (180_000, 5_000_000)
    }
}
fn main() {
    run(C05)
}
