use harness::prelude::*;
use harness::spy::{spied_fit, Event};

/// Every request the solver makes to user-supplied (recording) datafits and penalties describes one
/// consistent state: a prediction equal to X times the coefficients.
struct C21;

fn all_close(a: &[f64], b: &[f64], tol: f64) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() <= tol)
}

struct Replay<'a> {
    c: &'a FitCase,
    lips: Vec<f64>,
    abs: Problem,
    /// largest |X| |w| seen so far: the scale of rounding errors in the running prediction
    big: f64,
    /// what the current state may be: the result of the last update first, then extrapolations tried since
    cands: Vec<Vec<f64>>,
    pending: Vec<Vec<f64>>,
    updates: usize,
    adopted: usize,
    tried: usize,
}
impl Replay<'_> {
    fn grow(&mut self, w: &[f64]) {
        let a: Vec<f64> = w.iter().map(|v| v.abs()).collect();
        self.big = self.abs.xw(&a).into_iter().fold(self.big, f64::max);
    }
    /// allowed distance between a prediction and X w
    fn tol(&self, w: &[f64]) -> f64 {
        let a: Vec<f64> = w.iter().map(|v| v.abs()).collect();
        1e-9 * self.abs.xw(&a).into_iter().fold(self.big, f64::max)
    }
    /// values asked for at predictions that must belong to one of the candidates
    fn settle(&mut self) -> Result<(), String> {
        let pb = &self.c.pb;
        for xw in std::mem::take(&mut self.pending) {
            // extrapolation may fail numerically; such a point cannot be adopted
            let broken = |v: &Vec<f64>| v.iter().any(|x| !x.is_finite());
            let ok = if broken(&xw) {
                self.cands.iter().skip(1).any(|w| broken(w) || broken(&pb.xw(w)))
            } else {
                self.cands.iter().any(|w| all_close(&pb.xw(w), &xw, self.tol(w)))
            };
            if !ok {
                return Err(format!(
                    "after {} updates the datafit was evaluated at a prediction that is not X times the current or the extrapolated coefficients",
                    self.updates
                ));
            }
        }
        Ok(())
    }
    fn adopt(&mut self, w: Vec<f64>) -> Result<(), String> {
        if w != self.cands[0] {
            let (pb, m) = (&self.c.pb, &self.c.model);
            if !self.c.knobs.accel {
                return Err(format!("after {} updates the coefficients changed without an update", self.updates));
            }
            self.adopted += 1;
            let (a, b) = (objective(pb, m, &self.cands[0]), objective(pb, m, &w));
            let o0 = objective(pb, m, &vec![0.0; w.len()]);
            if !(b <= a + 1e-9 * (a.abs() + o0)) {
                return Err(format!("an extrapolated point of objective {:e} replaced one of {:e}", b, a));
            }
        }
        Ok(())
    }
}

impl Property for C21 {
    type Case = FitCase;
    const ID: &'static str = "C21";
    fn rule(&self) -> String {
        "random problem, model and knobs run through the solver with recording wrappers around the datafit and the penalty; the log is replayed against a shadow state; non-trivial = at least one update that moved a coefficient and one optimality check of a non-zero state".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["running predictions may differ from X times the coefficients by 1e-9 of the largest |X||w| met so far (accumulated rounding)".into()]
    }
    fn gen(&self, g: &mut G) -> FitCase {
        let kind = g.weighted(&[4, 4, 3]);
        let mut s = match kind {
            0 => Shape::single(),
            1 => Shape::multi(),
            _ => Shape::labels(),
        };
        (s.max_n, s.max_p, s.max_t, s.large, s.tail) = (20, 24, s.max_t.min(4), 0.004, [1, 0, 0, 1, 0, 3]);
        let mut c = gen_fit_case(g, s, &[Pen::L1, Pen::EN, Pen::MCP], kind == 1);
        let k = &mut c.knobs;
        k.max_iter = g.pick(&[1, 2, 3, 6]);
        k.max_epochs = g.pick(&[1, 2, 7, 12, 23, 34]);
        if g.bool(0.3) {
            k.tol = 0.0;
        }
        if g.bool(0.5) {
            k.k = g.int(1, 8);
        }
        if g.bool(0.5) {
            k.ws = g.int(1, c.pb.p);
        }
        k.accel = g.bool(0.85);
        k.verbose = false;
        c.api = Api::Solver;
        c
    }
    fn shrink(&self, c: &FitCase) -> Vec<FitCase> {
        let mut v = c.shrink();
        for e in [1, c.knobs.max_epochs / 2, c.knobs.max_epochs.saturating_sub(1)] {
            if e > 0 && e < c.knobs.max_epochs {
                v.push(FitCase { knobs: Knobs { max_epochs: e, ..c.knobs }, ..c.clone() });
            }
        }
        for e in [1, c.knobs.max_iter - 1] {
            if e > 0 && e < c.knobs.max_iter {
                v.push(FitCase { knobs: Knobs { max_iter: e, ..c.knobs }, ..c.clone() });
            }
        }
        // the shared helper may raise budgets; stay small
        v.retain(|d| d.knobs.max_iter <= c.knobs.max_iter && d.knobs.max_epochs <= c.knobs.max_epochs && d.api == Api::Solver);
        v
    }
    fn check(&self, c: &FitCase) -> Outcome {
        let (pb, m, t) = (&c.pb, &c.model, c.pb.t);
        let (w, log) = spied_fit(pb, m, &c.knobs, &c.layout)?;
        let f = if m.logistic { 0.25 } else { 1.0 };
        let mut r = Replay {
            c,
            lips: pb.lips().into_iter().map(|l| l * f).collect(),
            abs: Problem { x: pb.x.iter().map(|v| v.abs()).collect(), ..pb.clone() },
            big: 0.0,
            cands: vec![vec![0.0; pb.p * t]],
            pending: vec![],
            updates: 0,
            adopted: 0,
            tried: 0,
        };
        let mut last: Option<(usize, &Vec<f64>, &Vec<f64>)> = None;
        let (mut moved, mut checked) = (false, false);
        for e in &log {
            match e {
                Event::Init => {}
                Event::Grad { j, xw, out } => last = Some((*j, xw, out)),
                Event::Fit { xw, .. } => r.pending.push(xw.clone()),
                Event::Pen { w, .. } => {
                    if !r.cands.contains(w) {
                        if !c.knobs.accel {
                            return Err(format!("after {} updates the penalty was evaluated at other coefficients than the current ones", r.updates));
                        }
                        r.tried += 1;
                        r.cands.push(w.clone());
                    }
                }
                Event::Prox { v, step, out } => {
                    let Some((j, xw, g)) = last else { return Err("an update without a gradient".into()) };
                    r.settle()?;
                    let l = r.lips[j];
                    if l == 0.0 {
                        return Err(format!("feature {} has a zero constant but was updated", j));
                    }
                    if !((step - 1.0 / l).abs() <= 1e-9 / l) {
                        return Err(format!("step {:e} for feature {} with constant {:e}", step, j, l));
                    }
                    let matches = |s: &Vec<f64>| -> (bool, bool) {
                        let sj = &s[j * t..(j + 1) * t];
                        let okv = (0..t).all(|k| (v[k] - (sj[k] - g[k] / l)).abs() <= 1e-9 * (sj[k].abs() + (g[k] / l).abs()));
                        (okv, all_close(&pb.xw(s), xw, r.tol(s)))
                    };
                    let res: Vec<_> = r.cands.iter().map(matches).collect();
                    if !res.iter().any(|x| x.0 && x.1) {
                    return Err(if res.iter().any(|x| x.1) {
                            format!("update {} of feature {} is not a gradient step of the coefficients its prediction belongs to", r.updates + 1, j)
                        } else {
                            format!("update {} of feature {} used a prediction that is not X times the coefficients", r.updates + 1, j)
                        });
                    }
                    // close states stay candidates until later requests tell them apart
                    let next: Vec<Vec<f64>> = (0..r.cands.len()).filter(|&i| res[i].0 && res[i].1).map(|i| r.cands[i].clone()).collect();
                    if !next.contains(&r.cands[0]) {
                        r.adopt(next[0].clone())?;
                    }
                    r.cands.clear();
                    for mut s in next {
                        moved |= s[j * t..(j + 1) * t] != out[..];
                        s[j * t..(j + 1) * t].copy_from_slice(out);
                        r.grow(&s);
                        if !r.cands.contains(&s) {
                            r.cands.push(s);
                        }
                    }
                    r.updates += 1;
                }
                Event::Dist { w, ws, grad, out, max } => {
                    if !r.cands.contains(w) {
                        if !c.knobs.accel {
                            return Err(format!("after {} updates optimality was measured at other coefficients than the current ones", r.updates));
                        }
                        r.cands.push(w.clone());
                    }
                    r.settle()?;
                    let g = gradient(pb, m.logistic, &pb.xw(w));
                    let colmax = pb.lips().into_iter().fold(0.0, f64::max).sqrt();
                    let tol = slack(pb, m, w, f64::EPSILON) + colmax * r.tol(w);
                    if ws.len() * t != grad.len() || out.len() != ws.len() || ws.iter().any(|&j| j >= pb.p) {
                        return Err("optimality measured on arrays of inconsistent sizes".into());
                    }
                    for (k, &j) in ws.iter().enumerate() {
                        if !all_close(&g[j * t..(j + 1) * t], &grad[k * t..(k + 1) * t], tol) {
                            return Err(format!("after {} updates optimality was measured with a gradient of feature {} that is not the one at X times the coefficients", r.updates, j));
                        }
                    }
                    let _ = max;
                    checked |= w.iter().any(|&v| v != 0.0);
                }
            }
        }
        r.settle()?;
        match r.cands.iter().find(|s| s.iter().zip(&w).all(|(a, b)| a == b)) {
            Some(s) => r.adopt(s.clone())?,
            None => return Err("the returned coefficients are not those of the last state".into()),
        }
        Ok(Info::new(moved && (checked || r.updates > 2 * pb.p))
            .label(format!("{:?}{}{}", m.pen, if m.multi { " multi" } else { "" }, if m.logistic { " logistic" } else { "" }))
            .label_if(r.tried > 0, "extrapolation tried")
            .label_if(r.adopted > 0, "extrapolation adopted")
            .label_if(r.tried > r.adopted, "extrapolation rejected")
            .label_if(checked, "optimality measured at a non-zero state")
            .label_if(c.layout.x.sparse(), "sparse"))
    }
    fn cases(&self) -> (usize, usize) {
        (800_000, 40_000_000)
    }
}
fn main() {
    run(C21)
}
