use harness::prelude::*;

/// Outer budgets 0, 1, 2, ... of one history: the fit stops at the first point that meets the tolerance.
struct C24;
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    fit: FitCase,
    /// first budget looked at closely
    start: usize,
    iters: usize,
    epochs: usize,
}

impl Property for C24 {
    type Case = Case;
    const ID: &'static str = "C24";
    fn rule(&self) -> String {
        "random problem of any model fitted with outer budgets S, S+1, ..., S+I and a large one (S from 0 to 60) at a fixed epoch budget; non-trivial = some budget in between gives non-zero coefficients that clearly meet the tolerance (larger budgets then have to return them unchanged), and an earlier one clearly does not".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["a point is judged when its violation is farther from the tolerance than the rounding of the running prediction (1e-10 of the largest |X||w| met)".into()]
    }
    fn gen(&self, g: &mut G) -> Case {
        let small = |s: Shape| Shape { max_n: 30, max_p: 40, large: 0.001, ..s };
        let mut fit = match g.weighted(&[4, 3, 2]) {
            0 => gen_fit_case(g, small(Shape::single()), &[Pen::L1, Pen::EN, Pen::MCP, Pen::L05], false),
            1 => gen_fit_case(g, small(Shape::multi()), &[Pen::L1, Pen::EN, Pen::MCP], true),
            _ => gen_fit_case(g, small(Shape::labels()), &[Pen::L1, Pen::EN, Pen::MCP, Pen::L05], false),
        };
        let m = max_violation(&fit.pb, &fit.model, &vec![0.0; fit.pb.p * fit.pb.t]);
        if m > 0.0 && m.is_finite() && g.bool(0.9) {
            fit.knobs.tol = m * g.pick(&[0.5, 0.2, 0.1, 1e-2, 1e-3, 1e-4, 1e-6]);
        }
        if g.bool(0.5) {
            fit.knobs.ws = g.int(1, fit.pb.p.min(5));
        }
        let epochs = match g.int(0, 3) {
            0 => g.int(1, 4),
            1 => g.int(9, 24),
            2 => 60,
            _ => g.int(1, 40),
        };
        let start = match g.weighted(&[6, 2, 1]) {
            0 => 0,
            1 => g.int(1, 12),
            _ => g.int(10, 60),
        };
        let epochs = if start > 12 { g.int(1, 3) } else { epochs };
        let iters = g.int(2, 9);
        if g.bool(0.3) {
            // a tolerance the history passes where it is looked at
            let k = Knobs { max_iter: start + g.int(1, iters), max_epochs: epochs, tol: 0.0, ..fit.knobs };
            if let Ok(w) = (FitCase { knobs: k, ..fit.clone() }).fit() {
                let v = violations(&fit.pb, &fit.model, &w).into_iter().fold(0.0, f64::max);
                if v.is_finite() && v > 1e-9 * m {
                    fit.knobs.tol = v * g.pick(&[0.3, 0.6, 0.9, 1.1, 1.5]);
                }
            }
        }
        Case { fit, start, iters, epochs }
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v: Vec<Case> = c.fit.shrink().into_iter().map(|fit| Case { fit, ..c.clone() }).collect();
        for e in [0, c.start / 2, c.start.saturating_sub(1)] {
            if e < c.start {
                v.push(Case { start: e, ..c.clone() });
            }
        }
        for e in [1, c.iters / 2, c.iters - 1] {
            if e > 0 && e < c.iters {
                v.push(Case { iters: e, ..c.clone() });
            }
        }
        for e in [1, c.epochs / 2, c.epochs - 1] {
            if e > 0 && e < c.epochs {
                v.push(Case { epochs: e, ..c.clone() });
            }
        }
        v
    }
    fn check(&self, c: &Case) -> Outcome {
        let (pb, m, k) = (&c.fit.pb, &c.fit.model, &c.fit.knobs);
        let run = |i: usize| FitCase { knobs: Knobs { max_iter: i, max_epochs: c.epochs, ..*k }, ..c.fit.clone() }.fit();
        let ab = Problem { x: pb.x.iter().map(|v| v.abs()).collect(), ..pb.clone() };
        let (mut big, mut stopped, mut running) = (0.0f64, None::<(usize, Vec<f64>)>, false);
        let mut prev: Option<(Vec<f64>, bool)> = None;
        let mut nontrivial = false;
        let mut budgets: Vec<usize> = (1..4).map(|q| c.start * q / 4).filter(|&b| b < c.start).collect();
        budgets.dedup();
        let last = c.start + c.iters;
        budgets.extend((c.start..=last).chain([last + 40]));
        let mut before = usize::MAX;
        for &i in &budgets {
            let w = run(i)?;
            if let Some((at, s)) = &stopped {
                if *s != w {
                    return Err(format!("{} outer iterations meet the tolerance {:e}, yet {} return other coefficients", at, k.tol, i));
                }
                nontrivial |= running && s.iter().any(|&v| v != 0.0);
                continue;
            }
            if w.iter().any(|v| !v.is_finite()) {
                return Err("non-finite coefficients".into());
            }
            if let Some((p, must_move)) = &prev {
                if *must_move && before.wrapping_add(1) == i && *p == w {
                    return Err(format!("{} outer iterations leave a violation above the tolerance {:e}, yet one more changes nothing", i - 1, k.tol));
                }
            }
            big = big.max(ab.xw(&w.iter().map(|v| v.abs()).collect::<Vec<_>>()).into_iter().fold(0.0, f64::max));
            let sl = slack(pb, m, &w, f64::EPSILON);
            let f = if m.logistic { 0.25 } else { 1.0 };
            let (mut above, mut below) = (false, true);
            // a coefficient of the size of rounding (left by an extrapolation, say) has a subgradient of its own, which
            // an iteration that restores the same bits cannot improve: such features count as zero when they violate
            let size = |q: usize| w[q].abs() * pb.lip(q / pb.t).sqrt();
            let wmax = (0..w.len()).map(size).fold(0.0, f64::max);
            let rounded: Vec<f64> = (0..w.len()).map(|q| if size(q) <= 1e-12 * wmax { 0.0 } else { w[q] }).collect();
            let clean = violations(pb, m, &rounded);
            for (j, v) in violations(pb, m, &w).into_iter().enumerate() {
                let l = pb.lip(j);
                let mut margin = sl + 1e-10 * l.sqrt() * (big + 1e-3 * (m.logistic as u8 as f64));
                if m.pen == Pen::L05 {
                    if l == 0.0 {
                        continue;
                    }
                    let wn = norm(&w[j * pb.t..(j + 1) * pb.t]);
                    margin = margin / (l * f) + 1e-9 * wn;
                    // the violation jumps where two minimisers of the coordinate problem tie
                    let near = {
                        let g = gradient(pb, m.logistic, &pb.xw(&w))[j];
                        let r = (w[j] - g / (l * f)).abs();
                        let jump = 1.5 * (m.alpha / (l * f)).powf(2.0 / 3.0);
                        (r - jump).abs() <= 1e-6 * jump + margin
                    };
                    if near {
                        below = false;
                        continue;
                    }
                }
                above |= v.min(clean[j]) > k.tol + 10.0 * margin + 1e-9 * v;
                below &= v + margin < k.tol || v + 10.0 * margin <= k.tol;
            }
            running |= above;
            if below {
                stopped = Some((i, w.clone()));
            }
            before = i;
            prev = Some((w, above));
        }
        Ok(Info::new(nontrivial)
            .label(format!("{:?}{}{}", m.pen, if m.multi { " multi" } else { "" }, if m.logistic { " logistic" } else { "" }))
            .label_if(stopped.as_ref().is_some_and(|s| s.0 == 0), "met at zero")
            .label_if(nontrivial, "met on the way")
            .label_if(stopped.is_none(), "not met")
            .label_if(nontrivial && c.start > 12, "met late")
            .label_if(k.ws < pb.p, "working set smaller than p")
            .label_if(k.accel, "accelerated"))
    }
    fn cases(&self) -> (usize, usize) {
        (400_000, 12_000_000)
    }
}
fn main() {
    run(C24)
}
