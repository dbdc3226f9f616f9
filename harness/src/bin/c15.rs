use harness::prelude::*;
use harness::spy::{spied_fit, Event};
use ndarray::{Array1, Array2, ShapeBuilder};
use sparseglm::utils::helpers::solve_lin_sys;
use sparseglm::Float;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Case {
    /// a regular or exactly singular linear system, row major
    System { n: usize, a: Vec<f64>, b: Vec<f64>, singular: bool, layout: usize, single: bool },
    /// an accelerated history judged at the end of its `window`-th window
    History { fit: FitCase, window: usize },
    /// every window of the last outer iteration, read off the updates a recording penalty sees
    Later { fit: FitCase },
}

struct C15;

/// extreme eigenvalues of a symmetric matrix
fn spectrum(a: &[f64], n: usize) -> (f64, f64) {
    let lo = min_eig(a.to_vec(), n);
    let hi = -min_eig(a.iter().map(|v| -v).collect(), n);
    (lo, hi)
}
/// condition number in the 2-norm
fn cond(a: &[f64], n: usize) -> f64 {
    // scaled to avoid overflow
    let m = a.iter().fold(0.0f64, |s, v| s.max(v.abs()));
    if m == 0.0 {
        return f64::INFINITY;
    }
    let mut g = vec![0.0; n * n];
    for i in 0..n {
        for j in 0..n {
            for k in 0..n {
                g[i * n + j] += (a[k * n + i] / m) * (a[k * n + j] / m);
            }
        }
    }
    let (lo, hi) = spectrum(&g, n);
    if lo <= 1e-15 * hi {
        return f64::INFINITY;
    }
    (hi / lo).sqrt()
}

fn solve<F: Float + 'static>(n: usize, a: &[f64], b: &[f64], layout: usize) -> Result<Vec<f64>, String> {
    let at = |i: usize, j: usize| F::cast(a[i * n + j]);
    let m = match layout % 3 {
        0 => Array2::from_shape_fn((n, n), |(i, j)| at(i, j)),
        1 => {
            let mut m = Array2::<F>::zeros((n, n).f());
            for i in 0..n {
                for j in 0..n {
                    m[[i, j]] = at(i, j);
                }
            }
            m
        }
        _ => Array2::from_shape_fn((n, n), |(i, j)| at(n - 1 - i, n - 1 - j)),
    };
    let v = if layout % 3 == 2 { m.slice(ndarray::s![..;-1, ..;-1]) } else { m.view() };
    let rhs = Array1::from_shape_fn(n, |i| F::cast(b[i]));
    solve_lin_sys(v, rhs.view()).map(|x| x.iter().map(|v| v.to_f64().unwrap()).collect()).map_err(|e| e.to_string())
}

fn gen_system(g: &mut G) -> Case {
    let n = g.log_int(1, 24);
    let mut a = vec![0.0; n * n];
    match g.int(0, 6) {
        0 => {
            // permuted diagonally dominant
            let p = g.perm(n);
            for i in 0..n {
                for j in 0..n {
                    a[i * n + j] = if g.bool(0.6) { g.normal() / n as f64 } else { 0.0 };
                }
                a[i * n + p[i]] = g.sign() * g.range(1.5, 4.0);
            }
        }
        1 => {
            // permutation matrix times powers of two
            let p = g.perm(n);
            for i in 0..n {
                a[i * n + p[i]] = g.sign() * 2f64.powi(g.int(0, 8) as i32 - 4);
            }
        }
        2 => {
            // row-permuted triangular with unit-size diagonal
            let p = g.perm(n);
            for i in 0..n {
                for j in 0..=i {
                    a[p[i] * n + j] = if i == j { g.sign() } else { g.int(0, 2) as f64 * 0.25 - 0.25 };
                }
            }
        }
        3 => a.iter_mut().for_each(|v| *v = g.normal()),
        4 => a.iter_mut().for_each(|v| *v = g.int(0, 4) as f64 - 2.0),
        5 => {
            // Gram matrix
            let m = n + g.int(0, 6);
            let u: Vec<f64> = (0..n * m).map(|_| g.normal()).collect();
            for i in 0..n {
                for j in 0..n {
                    a[i * n + j] = (0..m).map(|k| u[i * m + k] * u[j * m + k]).sum();
                }
            }
        }
        _ => {
            // zero diagonal
            for i in 0..n {
                for j in 0..n {
                    a[i * n + j] = if i == j { 0.0 } else { g.int(1, 5) as f64 * g.sign() };
                }
            }
        }
    }
    if g.bool(0.2) {
        let c = g.pick(&[1e-12, 1e-6, 1e6, 1e12]);
        a.iter_mut().for_each(|v| *v *= c);
    }
    let mut b: Vec<f64> = (0..n).map(|_| g.normal()).collect();
    if g.bool(0.3) {
        b.iter_mut().for_each(|v| *v = 1.0);
    }
    let singular = g.bool(0.25);
    if singular {
        match g.int(0, 2) {
            0 => {
                let i = g.int(0, n - 1);
                (0..n).for_each(|j| a[i * n + j] = 0.0);
            }
            1 => {
                let j = g.int(0, n - 1);
                (0..n).for_each(|i| a[i * n + j] = 0.0);
            }
            _ => {
                if n > 1 {
                    let i = g.int(0, n - 1);
                    let k = (i + g.int(1, n - 1)) % n;
                    let s = g.pick(&[1.0, -1.0, 2.0, 0.5]);
                    (0..n).for_each(|j| a[i * n + j] = s * a[k * n + j]);
                } else {
                    a[0] = 0.0;
                }
            }
        }
    }
    Case::System { n, a, b, singular, layout: g.int(0, 2), single: g.bool(0.2) }
}

/// visiting order of the first working set over all features, None when rounding may change it
fn order(pb: &Problem, m: &Model) -> Option<Vec<usize>> {
    let zero = vec![0.0; pb.p * pb.t];
    let g = gradient(pb, m.logistic, &vec![0.0; pb.n * pb.t]);
    let sl = slack(pb, m, &zero, f64::EPSILON);
    let mut v: Vec<(f64, usize)> = g.chunks(pb.t).enumerate().map(|(j, r)| (norm(r) - dphi0(m), j)).collect();
    v.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
    (v.windows(2).all(|p| p[0].0 - p[1].0 > 3.0 * sl) && v[v.len() - 1].0 > sl).then(|| v.into_iter().map(|x| x.1).collect())
}

/// one plain epoch over the features in the given order
fn epoch(pb: &Problem, m: &Model, ord: &[usize], w: &mut [f64]) {
    let t = pb.t;
    let mut xw = pb.xw(w);
    let k = if m.logistic { 0.25 } else { 1.0 };
    for &j in ord {
        let l = pb.lip(j) * k;
        if l == 0.0 {
            continue;
        }
        let mut g = vec![0.0; t];
        for i in 0..pb.n {
            let x = pb.xij(i, j);
            for s in 0..t {
                let r = if m.logistic { -pb.y[i] * sigmoid(-pb.y[i] * xw[i]) } else { xw[i * t + s] - pb.yit(i, s) };
                g[s] += x * r;
            }
        }
        let v: Vec<f64> = (0..t).map(|s| w[j * t + s] - g[s] / pb.n as f64 / l).collect();
        let r = norm(&v);
        let sc = if r > 0.0 { prox_norm(m, r, 1.0 / l) / r } else { 0.0 };
        for s in 0..t {
            let d = v[s] * sc - w[j * t + s];
            w[j * t + s] += d;
            for i in 0..pb.n {
                xw[i * t + s] += d * pb.xij(i, j);
            }
        }
    }
}

enum Verdict {
    Open(&'static str),
    /// the extrapolation had the lower objective
    Judged(bool),
}

/// `its`: the K + 1 plain iterates of a full window; `a`: the coefficients after it, each known up to its `blur`.
fn judge_window(pb: &Problem, m: &Model, its: &[Vec<f64>], a: &[f64], blur: &[f64]) -> Result<Verdict, String> {
    let kk = its.len() - 1;
    let plain = &its[kk];
    let wm = its.iter().map(|w| norm(w)).fold(0.0, f64::max);
    let (op, oa) = (objective(pb, m, plain), objective(pb, m, a));
    let o0 = objective(pb, m, &vec![0.0; pb.p * pb.t]);
    let mut osl = 1e-11 * (o0 + op);
    if norm(blur) > 0.0 {
        let gr = gradient(pb, m.logistic, &pb.xw(a));
        osl += (0..pb.p * pb.t).map(|c| 4.0 * blur[c] * (gr[c].abs() + m.alpha * (1.0 + a[c].abs()) + pb.lip(c / pb.t) * blur[c])).sum::<f64>();
    }
    let blur = norm(blur);
    if !(oa <= op + osl) {
        return Err(format!("the adopted point has objective {:e}, the plain iterate {:e}", oa, op));
    }
    // reference extrapolation
    let d: Vec<Vec<f64>> = (0..kk).map(|k| its[k + 1].iter().zip(&its[k]).map(|(x, y)| x - y).collect()).collect();
    let dmin = d.iter().map(|r| norm(r)).fold(f64::INFINITY, f64::min);
    let noise = 1e-14 * wm + f64::EPSILON * (norm(&pb.y) / (pb.n as f64).sqrt()) / pb.lips().into_iter().filter(|&l| l > 0.0).fold(f64::INFINITY, f64::min).sqrt() + blur;
    if !(dmin > 0.0) {
        let near = dist(a, plain) <= 1e-6 * wm + noise;
        return if near || oa < op { Ok(Verdict::Open("stationary window")) } else { Err("the window is stationary, yet the coefficients moved".into()) };
    }
    let mut cm = vec![0.0; kk * kk];
    for i in 0..kk {
        for j in 0..kk {
            cm[i * kk + j] = d[i].iter().zip(&d[j]).map(|(x, y)| x * y).sum();
        }
    }
    let (lo, hi) = spectrum(&cm, kk);
    let sens = hi / lo * (1e-15 + noise / dmin);
    if !(lo > 0.0 && sens < 1e-6) {
        return Ok(Verdict::Open("extrapolation sensitive to rounding"));
    }
    let z = spd_solve(cm, kk, vec![1.0; kk], 1);
    let zs: f64 = z.iter().sum();
    let mut acc = vec![0.0; plain.len()];
    let mut reach = 0.0f64;
    for k in 0..kk {
        let ck = z[k] / zs;
        acc.iter_mut().zip(&its[k]).for_each(|(s, v)| *s += ck * v);
        reach += ck.abs() * dist(&its[k], plain);
    }
    let bound = 1e-3 * reach.max(dist(&acc, plain) * 1e-2) + 1e-9 * wm + noise;
    if reach <= 1e3 * noise {
        return Ok(Verdict::Open("extrapolation sensitive to rounding"));
    }
    let oacc = objective(pb, m, &acc);
    let (near_p, near_a) = (dist(a, plain) <= 1e-9 * wm + noise, dist(a, &acc) <= bound);
    if !near_p && !near_a {
        return Err(format!(
            "the point after the window is neither the plain iterate (distance {:e}) nor the extrapolation (distance {:e}, allowed {:e})",
            dist(a, plain), dist(a, &acc), bound
        ));
    }
    let margin = osl + 1e-2 * (oacc - op).abs();
    if oacc < op - margin && !near_a {
        return Err(format!("the extrapolation lowers the objective ({:e} against {:e}) but was not adopted", oacc, op));
    }
    if oacc > op + margin && !near_p {
        return Err(format!("the extrapolation raises the objective ({:e} against {:e}) but was adopted", oacc, op));
    }
    Ok(Verdict::Judged(oacc < op))
}

/// All windows of the outer iteration after the first `max_iter - 1` ones. Its updates are the proximal
/// steps a recording penalty sees beyond those of the smaller budget; an epoch is one period of the visited
/// features, and the coefficients an epoch starts from follow from the points the steps are taken from.
fn later(f: &FitCase) -> Outcome {
    let (pb, m, t, kk) = (&f.pb, &f.model, f.pb.t, f.knobs.k);
    let info = Info::new(false).label("later outer iteration");
    let before = FitCase { knobs: Knobs { max_iter: f.knobs.max_iter - 1, ..f.knobs }, ..f.clone() };
    let skip = spied_fit(pb, m, &before.knobs, &f.layout)?.1.iter().filter(|e| matches!(e, Event::Prox { .. })).count();
    let (w, log) = spied_fit(pb, m, &f.knobs, &f.layout)?;
    let mut steps: Vec<(usize, Vec<f64>, Vec<f64>, Vec<f64>)> = vec![];
    let mut w0 = vec![0.0; pb.p * t];
    let mut seen = 0;
    let mut last: Option<(usize, &Vec<f64>)> = None;
    for e in &log {
        match e {
            Event::Grad { j, out, .. } => last = Some((*j, out)),
            Event::Prox { v, step, out } => {
                let Some((j, g)) = last else { return Ok(info.label("not readable")) };
                seen += 1;
                if seen > skip {
                    let from: Vec<f64> = (0..t).map(|k| v[k] + step * g[k]).collect();
                    let blur = (0..t).map(|k| 2e-15 * (v[k].abs() + (step * g[k]).abs())).collect();
                    steps.push((j, from, out.clone(), blur));
                }
            }
            _ => {}
        }
    }
    if steps.is_empty() {
        return Ok(info.label("converged before"));
    }
    let period = steps.iter().skip(1).position(|s| s.0 == steps[0].0).map_or(steps.len(), |i| i + 1);
    if steps.len() % period != 0 || steps.iter().enumerate().any(|(i, s)| s.0 != steps[i % period].0) {
        return Ok(info.label("not readable"));
    }
    let epochs = steps.len() / period;
    // coefficients before and after every epoch
    let (mut starts, mut ends, mut blurs) = (vec![], vec![], vec![]);
    for e in 0..epochs {
        let mut blur = vec![0.0; pb.p * t];
        for s in &steps[e * period..(e + 1) * period] {
            // a point the arithmetic cannot tell from the one before is that one
            let same = (0..t).all(|k| (s.1[k] - w0[s.0 * t + k]).abs() <= s.3[k]);
            if !same {
                w0[s.0 * t..(s.0 + 1) * t].copy_from_slice(&s.1);
                blur[s.0 * t..(s.0 + 1) * t].copy_from_slice(&s.3);
            }
        }
        starts.push(w0.clone());
        if e > 0 {
            blurs.push(blur);
        }
        for s in &steps[e * period..(e + 1) * period] {
            w0[s.0 * t..(s.0 + 1) * t].copy_from_slice(&s.2);
        }
        ends.push(w0.clone());
    }
    starts.push(w);
    blurs.push(vec![0.0; pb.p * t]);
    let mut info = info.label_if(f.knobs.max_iter > 1, "after the first outer iteration");
    for e in 0..epochs {
        let after = &starts[e + 1];
        if (e + 1) % (kk + 1) == 0 {
            match judge_window(pb, m, &ends[e - kk..=e], after, &blurs[e]).map_err(|x| format!("epoch {} of outer iteration {}: {}", e + 1, f.knobs.max_iter, x))? {
                Verdict::Open(why) => info = info.label(why),
                Verdict::Judged(adopted) => {
                    info.nontrivial = true;
                    info = info.label(if adopted { "extrapolation adopted" } else { "plain iterate kept" });
                }
            }
        } else if !(dist(after, &ends[e]) <= 2.0 * norm(&blurs[e]) + 1e-12 * norm(&ends[e])) {
            return Err(format!("the coefficients change by {:e} after epoch {} of outer iteration {}, which ends no window of {}", dist(after, &ends[e]), e + 1, f.knobs.max_iter, kk + 1));
        }
    }
    Ok(info)
}

impl Property for C15 {
    type Case = Case;
    const ID: &'static str = "C15";
    fn rule(&self) -> String {
        "linear systems up to 24 x 24 (permuted, zero pivots, Gram, badly scaled, exactly singular) judged by their residual; accelerated histories over all features judged at the end of a window against the extrapolation recomputed from the iterates; non-trivial = a regular system of size > 1 with bounded condition, a singular system, or a history whose extrapolation is well conditioned".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "regular systems are judged when their condition number is below 1e6 (1e2 in single precision); singular ones have a zero row, a zero column or two proportional rows".into(),
            "histories are judged exactly when the extrapolation is insensitive to rounding, otherwise only for monotonicity".into(),
        ]
    }
    fn gen(&self, g: &mut G) -> Case {
        if g.bool(0.6) {
            return gen_system(g);
        }
        let kind = g.weighted(&[5, 5, 2]);
        let mut s = match kind {
            0 => Shape::single(),
            1 => Shape::multi(),
            _ => Shape::labels(),
        };
        (s.large, s.tail) = (0.004, [1, 1, 0, 1, 0, 3]);
        s.max_n = 25;
        s.max_p = 14;
        s.max_t = s.max_t.min(4);
        s.scaling = g.bool(0.2);
        let mut fit = gen_fit_case(g, s, &[Pen::L1, Pen::EN, Pen::MCP], kind == 1);
        fit.model.alpha *= g.pick(&[1.0, 0.3, 0.03]);
        if g.bool(0.15) {
            fit.model.alpha = 0.0;
        }
        if fit.model.pen == Pen::MCP && fit.model.alpha == 0.0 && fit.model.gamma.is_infinite() {
            // infinity times zero: the penalty has no value
            fit.model.pen = Pen::L1;
        }
        fit.knobs.ws = fit.pb.p + g.int(0, 3);
        fit.knobs.accel = true;
        fit.knobs.k = g.pick(&[1, 2, 2, 3, 3, 4, 5, 5, 6, 8]);
        fit.knobs.tol = 0.0;
        if g.bool(0.4) {
            fit.knobs.ws = g.int(1, fit.pb.p + 2);
            fit.knobs.max_iter = g.int(1, 4);
            fit.knobs.max_epochs = (fit.knobs.k + 1) * g.int(1, 4) + g.int(0, 1);
            fit.api = Api::Solver;
            return Case::Later { fit };
        }
        Case::History { fit, window: g.pick(&[1, 1, 1, 2, 3]) }
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        match c {
            Case::System { n, a, b, singular, layout, single } => {
                if !*singular {
                    for d in 0..*n {
                        if *n > 1 {
                            for e in 0..*n {
                                let q: Vec<f64> = (0..*n).filter(|&i| i != d).flat_map(|i| (0..*n).filter(move |&j| j != e).map(move |j| a[i * n + j])).collect();
                                let r: Vec<f64> = (0..*n).filter(|&i| i != d).map(|i| b[i]).collect();
                                v.push(Case::System { n: n - 1, a: q, b: r, singular: false, layout: *layout, single: *single });
                            }
                        }
                    }
                    let r: Vec<f64> = a.iter().map(|x| x.round()).collect();
                    if r != *a {
                        v.push(Case::System { a: r, n: *n, b: b.clone(), singular: false, layout: *layout, single: *single });
                    }
                }
                if *layout != 0 {
                    v.push(Case::System { n: *n, a: a.clone(), b: b.clone(), singular: *singular, layout: 0, single: *single });
                }
                if *single {
                    v.push(Case::System { n: *n, a: a.clone(), b: b.clone(), singular: *singular, layout: *layout, single: false });
                }
                if b.iter().any(|&x| x != 1.0) {
                    v.push(Case::System { n: *n, a: a.clone(), b: vec![1.0; *n], singular: *singular, layout: *layout, single: *single });
                }
            }
            Case::Later { fit } => {
                for f in fit.shrink() {
                    if f.knobs.accel && f.knobs.k <= 14 && f.knobs.max_iter <= fit.knobs.max_iter && f.knobs.max_iter > 0 && f.knobs.max_epochs <= fit.knobs.max_epochs && f.api == Api::Solver && !(f.model.pen == Pen::MCP && f.model.alpha == 0.0 && f.model.gamma.is_infinite()) {
                        v.push(Case::Later { fit: f });
                    }
                }
                if fit.knobs.max_iter > 1 {
                    v.push(Case::Later { fit: FitCase { knobs: Knobs { max_iter: fit.knobs.max_iter - 1, ..fit.knobs }, ..fit.clone() } });
                }
            }
            Case::History { fit, window } => {
                for f in fit.shrink() {
                    if f.knobs.accel && f.knobs.ws >= f.pb.p && f.knobs.k <= 14 && !(f.model.pen == Pen::MCP && f.model.alpha == 0.0 && f.model.gamma.is_infinite()) {
                        v.push(Case::History { fit: f, window: *window });
                    }
                }
                if *window > 1 {
                    v.push(Case::History { fit: fit.clone(), window: window - 1 });
                }
            }
        }
        v
    }
    fn check(&self, c: &Case) -> Outcome {
        match c {
            Case::System { n, a, b, singular, layout, single } => {
                let got = if *single { solve::<f32>(*n, a, b, *layout) } else { solve::<f64>(*n, a, b, *layout) };
                if *singular {
                    return match got {
                        Ok(x) => Err(format!("a singular system was solved: {:?}", x)),
                        Err(_) => Ok(Info::new(true).label("singular")),
                    };
                }
                let k = cond(a, *n);
                let (kmax, eps) = if *single { (1e2, f32::EPSILON as f64) } else { (1e6, f64::EPSILON) };
                if !(k <= kmax) {
                    return Ok(Info::new(false).label("ill-conditioned"));
                }
                let x = got.map_err(|e| format!("a regular system (condition {:.1e}) was refused: {}", k, e))?;
                if x.len() != *n {
                    return Err(format!("{} unknowns for {} equations", x.len(), n));
                }
                let na = norm(a);
                let r: Vec<f64> = (0..*n).map(|i| (0..*n).map(|j| a[i * n + j] * x[j]).sum::<f64>() - b[i]).collect();
                // element growth of elimination with partial pivoting stays far below this
                let bound = 1e3 * (*n as f64) * k * eps * (na * norm(&x) + norm(b));
                if !(norm(&r) <= bound) {
                    return Err(format!("residual {:e} (allowed {:e}) for a system of condition {:.1e}", norm(&r), bound, k));
                }
                let zp = (0..*n).any(|i| a[i * n + i] == 0.0);
                Ok(Info::new(*n > 1).label("regular").label_if(zp, "zero on the diagonal").label_if(*single, "single precision"))
            }
            Case::History { fit: f, window } => {
                let (pb, m) = (&f.pb, &f.model);
                let kk = f.knobs.k;
                let name = format!("history {:?}{}{}", m.pen, if m.multi { " multi" } else { "" }, if m.logistic { " logistic" } else { "" });
                let mut info = Info::new(false).label(name);
                let run = |e: usize, accel: bool| FitCase { knobs: Knobs { max_iter: 1, max_epochs: e, accel, ..f.knobs }, ..f.clone() }.fit();
                let first = (window - 1) * (kk + 1);
                let mut its = vec![];
                for e in 1..=kk {
                    its.push(run(first + e, true)?);
                }
                let a = run(first + kk + 1, true)?;
                // the last plain iterate is not visible when the extrapolation is taken
                let plain = if *window == 1 {
                    run(kk + 1, false)?
                } else {
                    let Some(ord) = order(pb, m) else {
                        return Ok(info.label("order not determined"));
                    };
                    let mut w = its[kk - 1].clone();
                    epoch(pb, m, &ord, &mut w);
                    w
                };
                its.push(plain.clone());
                match judge_window(pb, m, &its, &a, &vec![0.0; pb.p * pb.t])? {
                    Verdict::Open(why) => Ok(info.label(why)),
                    Verdict::Judged(adopted) => {
                        info.nontrivial = true;
                        Ok(info
                            .label(if adopted { "extrapolation adopted" } else { "plain iterate kept" })
                            .label_if(pb.p * pb.t < kk + 1, "window larger than the coefficients")
                            .label_if(*window > 1, "later window"))
                    }
                }
            }
            Case::Later { fit } => later(fit),
        }
    }
    fn cases(&self) -> (usize, usize) {
        (1_500_000, 40_000_000)
    }
}
fn main() {
    run(C15)
}
