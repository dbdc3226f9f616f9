use harness::dfit::*;
use harness::dmops::*;
use harness::prelude::*;
use sparseglm::utils::helpers::{compute_alpha_max, compute_alpha_max_mtl, compute_alpha_max_sparse};

struct C06;
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    /// its layout is compared with the plain one and with the others
    fit: FitCase,
    others: Vec<Layout>,
    /// coefficients used for direct calls
    w: Vec<f64>,
    epochs: usize,
}

/// the features are ranked the same way whatever the rounding: violations at zero are clearly
/// different from each other or exactly zero
fn ranked(pb: &Problem, m: &Model) -> bool {
    let zero = vec![0.0; pb.p * pb.t];
    let g = gradient(pb, m.logistic, &vec![0.0; pb.n * pb.t]);
    let sl = slack(pb, m, &zero, f64::EPSILON);
    let mut v: Vec<f64> = g.chunks(pb.t).map(|r| norm(r) - dphi0(m)).collect();
    // an all-zero column has an exactly zero gradient
    for j in 0..pb.p {
        if v[j] < -sl || pb.lip(j) == 0.0 {
            v[j] = -1.0;
        }
    }
    if dphi0(m) == 0.0 {
        for j in 0..pb.p {
            if pb.lip(j) == 0.0 {
                v[j] = -1.0;
            }
        }
    }
    v.sort_by(|a, b| b.partial_cmp(a).unwrap());
    v.windows(2).all(|p| p[1] == -1.0 || (p[0] - p[1] > 3.0 * sl && p[1] > sl)) && v[0] > 1.5 * sl
}

fn same(what: &str, a: &[f64], b: &[f64], bound: f64, lay: &Layout) -> Result<(), String> {
    if a.len() != b.len() {
        return Err(format!("{} has {} entries in layout {:?}, expected {}", what, b.len(), lay, a.len()));
    }
    for (x, y) in a.iter().zip(b) {
        if !((x - y).abs() <= bound) {
            return Err(format!("{} is {:e} in layout {:?}, expected {:e} (bound {:e})", what, y, lay, x, bound));
        }
    }
    Ok(())
}

impl Property for C06 {
    type Case = Case;
    const ID: &'static str = "C06";
    fn rule(&self) -> String {
        "random dataset in two to four memory representations: design-matrix operations, datafit quantities, alpha_max helpers, short unaccelerated fits and converged fits are compared between them; non-trivial = at least two representations and a non-zero fit compared".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "CSC matrices without duplicate row indices inside a column".into(),
            "short fits are compared when the violations at zero are clearly different (the visiting order is then the same)".into(),
        ]
    }
    fn gen(&self, g: &mut G) -> Case {
        let kind = g.weighted(&[4, 4, 2]);
        let mut s = match kind {
            0 => Shape::single(),
            1 => Shape::multi(),
            _ => Shape::labels(),
        };
        s.large = 0.003;
        s.max_p = 50;
        let pens: &[Pen] = if kind == 1 { &[Pen::L1, Pen::EN, Pen::MCP] } else { &[Pen::L1, Pen::EN, Pen::MCP] };
        let mut fit = gen_fit_case(g, s, pens, kind == 1);
        long_iterations(&mut fit);
        let mut others: Vec<Layout> = (0..g.int(1, 3)).map(|_| Layout::gen(g)).collect();
        if fit.layout.x.sparse() == others.iter().all(|l| l.x.sparse()) {
            others[0].x = if fit.layout.x.sparse() { g.pick(&DENSE) } else { g.pick(&SPARSE) };
        }
        let z = g.bool(0.3);
        let w = (0..fit.pb.p * fit.pb.t).map(|_| if z && g.bool(0.5) { 0.0 } else { g.normal() }).collect();
        Case { fit, others, w, epochs: g.int(1, 4) }
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        for f in c.fit.shrink() {
            let mut w = c.w.clone();
            w.truncate(f.pb.p * f.pb.t);
            v.push(Case { fit: f, w, ..c.clone() });
        }
        for i in 0..c.others.len() {
            if c.others.len() > 1 {
                let mut q = c.clone();
                q.others.remove(i);
                v.push(q);
            }
            for l in c.others[i].shrink() {
                let mut q = c.clone();
                q.others[i] = l;
                v.push(q);
            }
        }
        if c.epochs > 1 {
            v.push(Case { epochs: 1, ..c.clone() });
        }
        if c.w.iter().any(|&x| x != 1.0) {
            v.push(Case { w: vec![1.0; c.w.len()], ..c.clone() });
        }
        v
    }
    fn check(&self, c: &Case) -> Outcome {
        let (pb, m) = (&c.fit.pb, &c.fit.model);
        let (n, p, t) = (pb.n, pb.p, pb.t);
        let eps = f64::EPSILON;
        let lays: Vec<Layout> = std::iter::once(c.fit.layout).chain(c.others.iter().cloned()).collect();
        let xw = pb.xw(&c.w);
        let ab = Problem { x: pb.x.iter().map(|v| v.abs()).collect(), ..pb.clone() };
        let aw: Vec<f64> = c.w.iter().map(|v| v.abs()).collect();
        let big = ab.xw(&aw).into_iter().fold(0.0, f64::max);
        let ymax = pb.y.iter().fold(0.0f64, |s, v| s.max(v.abs()));
        let dim = 16.0 * (n + p) as f64;
        // the working set: the odd-numbered features, in decreasing order, then the even ones
        let mut ws: Vec<usize> = (0..p).filter(|j| j % 2 == 1).rev().collect();
        ws.extend((0..p).step_by(2));
        let start = vec![0.0; n * t];
        let g0 = gradient(pb, m.logistic, &xw);
        let gb = {
            let r = vec![ymax + big + 1.0; n * t];
            let g = gradient(&Problem { y: r.clone(), ..ab.clone() }, false, &vec![0.0; n * t]);
            dim * eps * g.into_iter().fold(0.0f64, |s, v| s.max(v.abs()))
        };
        let lip: Vec<f64> = pb.lips().into_iter().map(|l| if m.logistic { l / 4.0 } else { l }).collect();
        let v0 = fit_value(pb, m.logistic, &xw);
        let mut info = Info::new(false)
            .label(format!("{:?}{}{}", m.pen, if m.multi { " multi" } else { "" }, if m.logistic { " logistic" } else { "" }));
        for lay in &lays {
            info = info.label(format!("{:?}", lay.x).split('(').next().unwrap().to_string());
            let o = ops::<f64>(pb, m.multi, lay, &ws, &c.w, &start)?;
            for q in [&o, o.by_ref.as_ref().unwrap()] {
                if (q.sparse, q.n_features, q.n_samples, q.n_tasks) != (lay.x.sparse(), p, n, t) {
                    return Err(format!("layout {:?}: reported as sparse={} with {} features, {} samples, {} tasks", lay, q.sparse, q.n_features, q.n_samples, q.n_tasks));
                }
                same("target", &pb.y, &q.targets, 0.0, lay)?;
                if !m.multi {
                    same("target", &pb.y, &q.single, 0.0, lay)?;
                }
                same("model fit of given coefficients", &xw, &q.extrapolated, dim * eps * big, lay)?;
                same("updated model fit", &xw, &q.updated, dim * eps * big, lay)?;
            }
            let q = quantities::<f64>(pb, m.logistic, m.multi, lay, &[xw.clone()], lay.seed as usize)?;
            for j in 0..p {
                if !((q.lips[j] - lip[j]).abs() <= dim * eps * lip[j]) {
                    return Err(format!("step constant {} is {:e} in layout {:?}, expected {:e}", j, q.lips[j], lay, lip[j]));
                }
            }
            same("coordinate gradient", &g0, &q.grads, gb, lay)?;
            same("full gradient", &g0, &q.full, gb, lay)?;
            if !((q.values[0] - v0).abs() <= dim * eps * v0.abs() + 4.0 * eps) {
                return Err(format!("datafit value is {:e} in layout {:?}, expected {:e}", q.values[0], lay, v0));
            }
            // regularisation helpers
            let xs = XStore::<f64>::build(pb, lay.x, lay.seed);
            let want = pb.alpha_max();
            let hb = dim * eps * (0..p).map(|j| (0..n).map(|i| ab.xij(i, j)).sum::<f64>()).fold(0.0, f64::max) * ymax * t as f64 / n as f64;
            let mut got = vec![];
            if t == 1 {
                let ys = YStore::<f64>::build(pb, lay.y, true);
                if lay.x.sparse() {
                    got.push(compute_alpha_max_sparse(&xs.csc(), ys.view1()));
                } else {
                    got.push(compute_alpha_max(xs.dense_view(), ys.view1()));
                }
            }
            if !lay.x.sparse() {
                got.push(compute_alpha_max_mtl(xs.dense_view(), YStore::<f64>::build(pb, lay.y, false).view2()));
            }
            same("alpha_max", &vec![want; got.len()], &got, hb, lay)?;
        }
        // short plain histories visit the same points
        if ranked(pb, m) {
            let k = Knobs { ws: p + 1, accel: false, max_iter: 1, max_epochs: c.epochs, tol: 0.0, ..c.fit.knobs };
            let short = |lay: &Layout| fit(pb, m, &k, lay, c.fit.api);
            let a = short(&Layout::plain())?;
            let sc = norm(&pb.y) / (n as f64).sqrt() + (0..p).map(|j| norm(&a[j * t..(j + 1) * t]) * lip[j].sqrt()).fold(0.0, f64::max);
            let sc = if m.logistic { sc + 1.0 } else { sc };
            let rel = if m.pen == Pen::MCP { 1e-6 } else { 1e-8 };
            for lay in &lays {
                let b = short(lay)?;
                for j in 0..p {
                    let d = dist(&a[j * t..(j + 1) * t], &b[j * t..(j + 1) * t]);
                    if !(d * lip[j].sqrt() <= rel * sc) {
                        return Err(format!("{} epochs from zero: coefficient {} differs by {:e} between the plain layout and {:?}", c.epochs, j, d, lay));
                    }
                }
            }
            info = info.label("short histories compared");
            info.nontrivial |= a.iter().any(|&v| v != 0.0);
        }
        // converged fits agree, and leave their inputs untouched
        if !easy(pb, m, c.fit.knobs.tol) {
            return Ok(info.label("screened"));
        }
        if m.nonconvex() && strong_convexity(pb, m).is_none() {
            return Ok(info.label("several stationary points"));
        }
        let mut first: Option<Vec<f64>> = None;
        for lay in &lays {
            let xs = XStore::<f64>::build(pb, lay.x, lay.seed);
            let ys = YStore::<f64>::build(pb, lay.y, !m.multi || (t == 1 && lay.seed % 2 == 1));
            let (fx, fy) = (xs.fingerprint(), ys.fingerprint());
            let b = fit_stores(&xs, &ys, pb, m, &c.fit.knobs, c.fit.api)?;
            if fx != xs.fingerprint() || fy != ys.fingerprint() {
                return Err(format!("the fit modified its inputs (layout {:?})", lay));
            }
            match &first {
                None => first = Some(b),
                Some(a) => {
                    let how = compare(pb, m, c.fit.knobs.tol, a, &b).map_err(|e| format!("{:?} against {:?}: {}", lays[0], lay, e))?;
                    info.nontrivial |= how == Agree::Unique && a.iter().any(|&v| v != 0.0);
                }
            }
        }
        Ok(info.label("converged fits compared"))
    }
    fn cases(&self) -> (usize, usize) {
        (200_000, 4_000_000)
    }
}
fn main() {
    run(C06)
}
