use harness::dfit::quantities;
use harness::dmops::ops;
use harness::prelude::*;
use harness::unit::*;
use sparseglm::utils::helpers::{compute_alpha_max, compute_alpha_max_mtl, compute_alpha_max_sparse, solve_lin_sys};

const E: f64 = f32::EPSILON as f64;

struct C22;
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Case {
    /// the same fit in both precisions
    Fit { fit: FitCase },
    /// proximal operator, value and optimality distance of one penalty
    Penalty { model: Model, step: f64, t: usize, kind: usize, w: Vec<f64>, g: Vec<f64> },
    /// datafit quantities at one prediction
    Datafit { logistic: bool, multi: bool, layout: Layout, kind: usize, pb: Problem, xw: Vec<f64> },
    /// matrix operations and alpha_max
    Matrix { multi: bool, layout: Layout, pb: Problem, ws: Vec<usize>, w: Vec<f64>, start: Vec<f64> },
    /// diagonally dominant system with permuted rows
    System { n: usize, a: Vec<f64>, b: Vec<f64> },
}

fn r32(v: f64) -> f64 {
    v as f32 as f64
}
fn round_all(v: &mut [f64]) {
    v.iter_mut().for_each(|x| *x = r32(*x));
}
fn round_problem(mut pb: Problem) -> Problem {
    round_all(&mut pb.x);
    round_all(&mut pb.y);
    pb
}
fn round_model(m: Model) -> Model {
    Model { alpha: r32(m.alpha), ratio: r32(m.ratio), gamma: r32(m.gamma), ..m }
}
fn round_fit(mut f: FitCase) -> FitCase {
    f.pb = round_problem(f.pb);
    f.model = round_model(f.model);
    f.knobs.tol = r32(f.knobs.tol);
    f
}

/// rounding a converged single-precision fit may hide in the quantities the stopping test looks at
fn slack32(pb: &Problem, m: &Model, k: &Knobs, w: &[f64]) -> f64 {
    let dim = 4.0 + (pb.n as f64).sqrt();
    let updates = (k.max_iter * k.max_epochs * pb.p) as f64;
    slack(pb, m, w, E) * (1.0 + 2.0 * updates.sqrt() / (200.0 * dim))
}

fn close(what: &str, a: f64, b: f64, bound: f64) -> Result<(), String> {
    if !((a - b).abs() <= bound) {
        return Err(format!("{}: {:e} in single precision, {:e} in double precision, allowed difference {:e}", what, a, b, bound));
    }
    Ok(())
}

fn check_fit(f: &FitCase) -> Outcome {
    let (pb, m, k) = (&f.pb, &f.model, &f.knobs);
    let r = ref_cd(pb, m, k.tol * 0.5, 100);
    let w = fit_t::<f32>(pb, m, k, &f.layout, f.api)?;
    if let Some(v) = w.iter().find(|v| !v.is_finite()) {
        return Err(format!("non-finite single-precision coefficient {}", v));
    }
    let lips = pb.lips();
    for j in 0..pb.p {
        if lips[j] == 0.0 && w[j * pb.t..(j + 1) * pb.t].iter().any(|&v| v != 0.0) {
            return Err(format!("all-zero column {} has a non-zero coefficient", j));
        }
    }
    let sl = slack32(pb, m, k, &w);
    let o0 = fit_value(pb, m.logistic, &vec![0.0; pb.n * pb.t]);
    let l1: f64 = w.chunks(pb.t).map(norm).sum();
    let o = objective(pb, m, &w);
    if !(o <= o0 * (1.0 + 1e-4) + sl * l1) {
        return Err(format!("objective {:e} of the single-precision fit is above the null model's {:e}", o, o0));
    }
    if r.epochs.is_none() {
        return Ok(Info::new(false).label("fit: screened"));
    }
    let kk = if m.logistic { 0.25 } else { 1.0 };
    let vs = violations(pb, m, &w);
    for j in 0..pb.p {
        let l = lips[j] * kk;
        let mut bound = k.tol * (1.0 + 1e-4) + sl;
        if m.pen == Pen::L05 && l > 0.0 {
            bound = k.tol * (1.0 + 1e-4) + 2.0 * sl / l + 8.0 * E * w[j].abs();
            // around the jump of the operator both sides are legitimate fixed points
            let g = gradient(pb, m.logistic, &pb.xw(&w))[j];
            let jump = 1.5 * (m.alpha / l).powf(2.0 / 3.0);
            if ((w[j] - g / l).abs() - jump).abs() <= 1e-4 * jump + 2.0 * bound {
                continue;
            }
        }
        if !(vs[j] <= bound) {
            // an exhausted budget excuses it: plain descent from there does not converge at once either
            if ref_cd_from(pb, m, k.tol * 0.5, 300, w.clone()).epochs.is_none() {
                return Ok(Info::new(false).label("fit: budget exhausted"));
            }
            return Err(format!(
                "violation {:e} of feature {} in single precision, tolerance {:e}, rounding {:e}; double-precision descent converges in {} epochs",
                vs[j], j, k.tol, sl, r.epochs.unwrap()
            ));
        }
    }
    // distance to the double-precision fit when the solution is unique
    let w64 = fit(pb, m, k, &f.layout, f.api)?;
    let mut unique = false;
    if let Some(mu) = strong_convexity(pb, m) {
        unique = true;
        let bound = (2.0 * k.tol * (1.0 + 1e-4) + 2.0 * sl) * (pb.p as f64).sqrt() / mu + 8.0 * E * norm(&w64);
        let d = dist(&w, &w64);
        if !(d <= bound) && !exhausted(pb, m, k.tol, &w64) {
            return Err(format!("single- and double-precision coefficients differ by {:e}, allowed {:e}", d, bound));
        }
    }
    let nz = w.iter().any(|&v| v != 0.0);
    Ok(Info::new(nz)
        .label(format!("fit: {:?}{}{}", m.pen, if m.multi { " multi" } else { "" }, if m.logistic { " logistic" } else { "" }))
        .label(if f.layout.x.sparse() { "fit: sparse" } else { "fit: dense" })
        .label_if(unique, "fit: unique solution compared"))
}

fn check_penalty(m: &Model, step: f64, t: usize, kind: usize, w: &[f64], g: &[f64]) -> Outcome {
    use ndarray::Array1;
    let f = |v: &[f64]| Array1::from(v.iter().map(|&x| x as f32).collect::<Vec<_>>());
    let (w32, g32) = (f(w).to_vec(), f(g).to_vec());
    let p = w.len() / t;
    let am = if m.pen == Pen::MCP && m.gamma.is_finite() { 1.0 / (1.0 - step / m.gamma).powi(2) } else { 1.0 };
    // operator on every row
    for j in 0..p {
        let v = &w[j * t..(j + 1) * t];
        let r = norm(v);
        if m.pen == Pen::L05 {
            let jump = 1.5 * (m.alpha * step).powf(2.0 / 3.0);
            if (r - jump).abs() <= 1e-4 * jump {
                continue;
            }
        }
        let a = prox::<f32>(m, f(v).view(), step as f32);
        let b = prox::<f64>(m, Array1::from(v.to_vec()).view(), step);
        let bound = (8.0 + t as f64) * E * (r + m.alpha * step) * am + 1e-37;
        for k in 0..t {
            close("prox", a[k] as f64, b[k], bound)?;
        }
    }
    let (a, b) = (value::<f32>(m, &w32, t, kind) as f64, value::<f64>(m, w, t, kind));
    close("penalty value", a, b, (8.0 + (w.len() + t) as f64) * E * b.abs() * 2.0 + 1e-37)?;
    if m.pen != Pen::L05 {
        let ws: Vec<usize> = (0..p).rev().collect();
        let (a, am) = subdiff::<f32>(m, &w32, &g32, &ws, t, kind);
        let (b, bm) = subdiff::<f64>(m, w, g, &ws, t, kind);
        let mut worst: f64 = 0.0;
        for (i, &j) in ws.iter().enumerate() {
            // gradients come in the order of the working set
            let (rw, rg) = (norm(&w[j * t..(j + 1) * t]), norm(&g[i * t..(i + 1) * t]));
            let en = if m.pen == Pen::EN { m.alpha * rw } else { 0.0 };
            let bound = (12.0 + t as f64) * E * (rg + 2.0 * m.alpha + en) + 1e-37;
            worst = worst.max(bound);
            close("optimality distance", a[i] as f64, b[i], bound)?;
        }
        close("largest optimality distance", am as f64, bm, worst)?;
    }
    let nz = w.iter().any(|&v| v != 0.0);
    Ok(Info::new(nz).label(format!("penalty: {:?}{}", m.pen, if m.multi { " multi" } else { "" })))
}

fn check_datafit(pb: &Problem, logistic: bool, multi: bool, lay: &Layout, kind: usize, xw: &[f64]) -> Outcome {
    let st = [xw.to_vec()];
    let a = quantities::<f32>(pb, logistic, multi, lay, &st, kind)?;
    let b = quantities::<f64>(pb, logistic, multi, lay, &st, kind)?;
    let (n, p, t) = (pb.n, pb.p, pb.t);
    let ce = 2.0 * (n as f64 + 16.0) * E;
    for j in 0..p {
        close("step constant", a.lips[j], b.lips[j], ce * b.lips[j])?;
    }
    // the residual is rounded before it is squared
    let big = norm(&pb.y).powi(2) + norm(xw).powi(2);
    let lin: f64 = xw.iter().map(|v| v.abs()).sum::<f64>();
    let nf = n as f64;
    let vb = if logistic { ce * (lin / nf + 1.0) } else { ce * big / nf };
    close("datafit value", a.values[0], b.values[0], vb)?;
    for j in 0..p {
        for k in 0..t {
            // sum of |x| (|y| + |Xw|) over the samples; labels have magnitude one
            let s: f64 = (0..n)
                .map(|i| {
                    let (v, z) = (pb.xij(i, j).abs(), xw[i * t + k].abs());
                    // relative error of exp(z) is z times the unit roundoff
                    v * if logistic { 1.0 + z.min(90.0) } else { z + pb.yit(i, k).abs() }
                })
                .sum::<f64>()
                / nf;
            for (what, u, v) in [("coordinate gradient", &a.grads, &b.grads), ("full gradient", &a.full, &b.full)] {
                close(what, u[j * t + k], v[j * t + k], ce * s + 1e-37)?;
            }
        }
    }
    let nz = b.grads.iter().any(|&v| v != 0.0);
    Ok(Info::new(nz)
        .label(format!("datafit: {}", if logistic { "logistic" } else if multi { "multi-task" } else { "quadratic" }))
        .label(if lay.x.sparse() { "datafit: sparse" } else { "datafit: dense" }))
}

fn check_matrix(pb: &Problem, multi: bool, lay: &Layout, ws: &[usize], w: &[f64], start: &[f64]) -> Outcome {
    let a = ops::<f32>(pb, multi, lay, ws, w, start)?;
    let b = ops::<f64>(pb, multi, lay, ws, w, start)?;
    if (a.sparse, a.n_features, a.n_samples, a.n_tasks) != (b.sparse, b.n_features, b.n_samples, b.n_tasks) || a.targets != b.targets {
        return Err("the dataset itself differs between the precisions".into());
    }
    let (n, t) = (pb.n, pb.t);
    for i in 0..n {
        for k in 0..t {
            let s: f64 = ws.iter().map(|&j| (pb.xij(i, j) * w[j * t + k]).abs()).sum();
            let bound = 2.0 * (ws.len() as f64 + 4.0) * E * (s + start[i * t + k].abs()) + 1e-37;
            let l = i * t + k;
            close("extrapolated fit", a.extrapolated[l], b.extrapolated[l], bound)?;
            close("updated fit", a.updated[l], b.updated[l], bound)?;
        }
    }
    // alpha_max
    let mut sc: f64 = 0.0;
    for j in 0..pb.p {
        sc = sc.max((0..n).map(|i| (0..t).map(|k| (pb.xij(i, j) * pb.yit(i, k)).abs()).sum::<f64>()).sum::<f64>());
    }
    let bound = 2.0 * (n as f64 + t as f64 + 8.0) * E * sc / n as f64 + 1e-37;
    let dense = if lay.x.sparse() { XKind::OwnedC } else { lay.x };
    let (xa, xb) = (XStore::<f32>::build(pb, dense, lay.seed), XStore::<f64>::build(pb, dense, lay.seed));
    let (ya, yb) = (YStore::<f32>::build(pb, lay.y, false), YStore::<f64>::build(pb, lay.y, false));
    close(
        "compute_alpha_max_mtl",
        compute_alpha_max_mtl(xa.dense_view(), ya.view2()) as f64,
        compute_alpha_max_mtl(xb.dense_view(), yb.view2()),
        bound,
    )?;
    if t == 1 {
        let (ya, yb) = (YStore::<f32>::build(pb, lay.y, true), YStore::<f64>::build(pb, lay.y, true));
        let want = compute_alpha_max(xb.dense_view(), yb.view1());
        close("compute_alpha_max", compute_alpha_max(xa.dense_view(), ya.view1()) as f64, want, bound)?;
        let xs = XStore::<f32>::build(pb, XKind::CscShuffled, lay.seed);
        close("compute_alpha_max_sparse", compute_alpha_max_sparse(&xs.csc(), ya.view1()) as f64, want, bound)?;
    }
    Ok(Info::new(b.updated.iter().any(|&v| v != 0.0))
        .label(if lay.x.sparse() { "matrix: sparse" } else { "matrix: dense" })
        .label_if(multi, "matrix: multi-task"))
}

fn check_system(n: usize, a: &[f64], b: &[f64]) -> Outcome {
    use ndarray::{Array1, Array2};
    let m = Array2::from_shape_vec((n, n), a.iter().map(|&v| v as f32).collect()).unwrap();
    let v = Array1::from(b.iter().map(|&v| v as f32).collect::<Vec<_>>());
    let x = solve_lin_sys(m.view(), v.view()).map_err(|e| format!("{}: regular system", e))?;
    let m = Array2::from_shape_vec((n, n), a.to_vec()).unwrap();
    let y = solve_lin_sys(m.view(), Array1::from(b.to_vec()).view()).map_err(|e| format!("{}: regular system", e))?;
    // rows dominate by a factor of two: the inverse is bounded by 2 / smallest dominant entry
    let d = (0..n).map(|i| a[i * n..(i + 1) * n].iter().fold(0.0f64, |s, v| s.max(v.abs()))).fold(f64::INFINITY, f64::min);
    let big = (0..n).map(|i| a[i * n..(i + 1) * n].iter().map(|v| v.abs()).sum::<f64>()).fold(0.0, f64::max);
    let xm = y.iter().fold(0.0f64, |s, v| s.max(v.abs()));
    let bound = 64.0 * (n * n) as f64 * E * xm * big * 2.0 / d + 1e-37;
    for i in 0..n {
        close("solution of a linear system", x[i] as f64, y[i], bound)?;
    }
    Ok(Info::new(xm > 0.0 && n > 1).label("linear system"))
}

impl Property for C22 {
    type Case = Case;
    const ID: &'static str = "C22";
    fn rule(&self) -> String {
        "single-precision representable data, run through the f32 and the f64 instance of the same generic code: fits of every model (easy problems, tolerance >= 1e-3 of the gradient scale or the default one), penalties, datafits, matrix operations, alpha_max and linear systems; non-trivial = non-zero coefficients/results".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "fits are judged on convergence when plain double-precision coordinate descent needs at most 100 epochs".into(),
            "L0.5 is not compared within 1e-4 of the jump of its operator, MCP operators with gamma < 1.2 step are not compared".into(),
        ]
    }
    fn gen(&self, g: &mut G) -> Case {
        match g.weighted(&[8, 4, 3, 3, 1]) {
            0 => {
                let kind = g.weighted(&[4, 4, 2]);
                let mut s = match kind {
                    0 => Shape::single(),
                    1 => Shape::multi(),
                    _ => Shape::labels(),
                };
                (s.max_n, s.max_p, s.scaling, s.large, s.tail) = (25, 25, false, 0.003, [1, 1, 1, 1, 0, 2]);
                s.max_t = s.max_t.min(5);
                let pens: &[Pen] = match kind {
                    1 => &[Pen::L1, Pen::EN, Pen::MCP],
                    _ => &[Pen::L1, Pen::EN, Pen::MCP, Pen::L05],
                };
                let mut f = gen_fit_case(g, s, pens, kind == 1);
                f.pb = round_problem(f.pb);
                let sc = f.pb.scale();
                let sc = if sc > 0.0 { sc } else { 1.0 };
                f.knobs.tol = sc * g.log_range(1e-3, 1e-2);
                if f.model.pen == Pen::L05 {
                    let l = f.pb.lips().into_iter().fold(0.0, f64::max);
                    f.knobs.tol /= if l > 0.0 { l } else { 1.0 };
                }
                (f.knobs.max_iter, f.knobs.max_epochs) = (50, 200);
                Case::Fit { fit: round_fit(f) }
            }
            1 => {
                let multi = g.bool(0.5);
                let mut m = gen_penalty(g, multi, 3.0);
                if m.gamma.is_infinite() && m.alpha == 0.0 {
                    m.alpha = 1.0;
                }
                let mut step = positive(g, 2.0);
                if m.pen == Pen::MCP {
                    step = step.min(m.gamma / 1.25);
                }
                let t = if multi { g.int(1, 6) } else { 1 };
                let p = g.int(1, 6);
                let mut w = vec![];
                for _ in 0..p {
                    if g.bool(0.2) {
                        w.extend(vec![0.0; t]);
                        continue;
                    }
                    let bs = breakpoints(&m, step);
                    let b = g.pick(&bs);
                    let r = if g.bool(0.4) { near(g, b) } else { magnitude(g, 3.0) };
                    let d: Vec<f64> = (0..t).map(|_| g.normal()).collect();
                    let nd = norm(&d);
                    w.extend(d.iter().map(|v| v / nd * r));
                }
                if !multi && g.bool(0.05) {
                    w[0] = g.sign() * 10f64.powf(g.range(-37.0, -4.0));
                }
                let a = m.alpha;
                let gr = (0..p * t).map(|_| r32(if g.bool(0.3) { a * g.sign() } else { g.normal() * (a + 1.0) })).collect();
                round_all(&mut w);
                Case::Penalty { model: round_model(m), step: r32(step), t, kind: g.int(0, 8), w, g: gr }
            }
            2 => {
                let kind = g.weighted(&[1, 1, 1]);
                let mut s = [Shape::single(), Shape::labels(), Shape::multi()][kind];
                (s.max_n, s.max_p, s.large, s.tail) = (40, 12, 0.003, [1, 1, 1, 1, 0, 2]);
                let pb = round_problem(gen_problem(g, s));
                let f = g.pick(&[0.1, 1.0, 10.0, 100.0]);
                let mut xw: Vec<f64> = (0..pb.n * pb.t).map(|_| g.normal() * f).collect();
                if g.bool(0.2) {
                    xw.iter_mut().for_each(|v| *v = 0.0);
                }
                round_all(&mut xw);
                Case::Datafit { logistic: kind == 1, multi: kind == 2, layout: Layout::gen(g), kind: g.int(0, 2), pb, xw }
            }
            3 => {
                let multi = g.bool(0.5);
                let mut s = if multi { Shape::multi() } else { Shape::single() };
                (s.max_n, s.max_p, s.large, s.tail) = (30, 20, 0.003, [1, 1, 1, 1, 0, 2]);
                let pb = round_problem(gen_problem(g, s));
                let k = g.int(1, pb.p);
                let ws = g.perm(pb.p)[..k].to_vec();
                let mut w: Vec<f64> = (0..pb.p * pb.t).map(|_| if g.bool(0.3) { 0.0 } else { g.normal() }).collect();
                let mut start: Vec<f64> = (0..pb.n * pb.t).map(|_| g.normal()).collect();
                round_all(&mut w);
                round_all(&mut start);
                Case::Matrix { multi, layout: Layout::gen(g), pb, ws, w, start }
            }
            _ => {
                let n = g.log_int(1, 14);
                let p = g.perm(n);
                let mut a = vec![0.0; n * n];
                for i in 0..n {
                    let mut s = 0.0;
                    for j in 0..n {
                        a[i * n + j] = if g.bool(0.6) { r32(g.normal()) } else { 0.0 };
                        s += a[i * n + j].abs();
                    }
                    let c = r32(2.0 * s + 1.0);
                    a[i * n + p[i]] = g.sign() * c;
                }
                let mut b: Vec<f64> = (0..n).map(|_| g.normal()).collect();
                round_all(&mut b);
                Case::System { n, a, b }
            }
        }
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        match c {
            Case::Fit { fit } => fit.shrink().into_iter().map(|f| Case::Fit { fit: round_fit(f) }).collect(),
            Case::Penalty { model, step, t, kind, w, g } => {
                let mut o = vec![];
                let p = w.len() / t;
                for j in 0..p {
                    if p > 1 {
                        o.push(Case::Penalty { model: *model, step: *step, t: *t, kind: *kind, w: w[j * t..(j + 1) * t].to_vec(), g: g[j * t..(j + 1) * t].to_vec() });
                    }
                }
                if *kind != 0 {
                    o.push(Case::Penalty { model: *model, step: *step, t: *t, kind: 0, w: w.clone(), g: g.clone() });
                }
                o
            }
            Case::Datafit { logistic, multi, layout, kind, pb, xw } => {
                let mut o = vec![];
                let t = pb.t;
                for h in [(0..pb.n / 2).collect::<Vec<_>>(), (pb.n / 2..pb.n).collect()] {
                    if !h.is_empty() && h.len() < pb.n {
                        let v = h.iter().flat_map(|&i| xw[i * t..(i + 1) * t].to_vec()).collect();
                        o.push(Case::Datafit { logistic: *logistic, multi: *multi, layout: *layout, kind: *kind, pb: pb.keep_rows(&h), xw: v });
                    }
                }
                if pb.p > 1 {
                    for j in 0..pb.p {
                        o.push(Case::Datafit { logistic: *logistic, multi: *multi, layout: *layout, kind: *kind, pb: pb.keep_cols(&[j]), xw: xw.clone() });
                    }
                }
                for layout in layout.shrink() {
                    o.push(Case::Datafit { logistic: *logistic, multi: *multi, layout, kind: *kind, pb: pb.clone(), xw: xw.clone() });
                }
                o
            }
            Case::Matrix { multi, layout, pb, ws, w, start } => {
                let mut o = vec![];
                for layout in layout.shrink() {
                    o.push(Case::Matrix { multi: *multi, layout, pb: pb.clone(), ws: ws.clone(), w: w.clone(), start: start.clone() });
                }
                if ws.len() > 1 {
                    for &j in ws {
                        o.push(Case::Matrix { multi: *multi, layout: *layout, pb: pb.clone(), ws: vec![j], w: w.clone(), start: start.clone() });
                    }
                }
                o
            }
            Case::System { n, a, b } => {
                let mut o = vec![];
                if b.iter().any(|&v| v != 1.0) {
                    o.push(Case::System { n: *n, a: a.clone(), b: vec![1.0; *n] });
                }
                o
            }
        }
    }
    fn check(&self, c: &Case) -> Outcome {
        match c {
            Case::Fit { fit } => check_fit(fit),
            Case::Penalty { model, step, t, kind, w, g } => check_penalty(model, *step, *t, *kind, w, g),
            Case::Datafit { logistic, multi, layout, kind, pb, xw } => check_datafit(pb, *logistic, *multi, layout, *kind, xw),
            Case::Matrix { multi, layout, pb, ws, w, start } => check_matrix(pb, *multi, layout, ws, w, start),
            Case::System { n, a, b } => check_system(*n, a, b),
        }
    }
    fn cases(&self) -> (usize, usize) {
        (1_500_000, 40_000_000)
    }
}
fn main() {
    run(C22)
}
