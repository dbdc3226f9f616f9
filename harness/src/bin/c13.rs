use harness::prelude::*;
use harness::rng::Lcg;

struct C13;
/// A symmetry of the problem; `seed` drives permutations, signs and rotations.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Sym {
    PermFeatures,
    FlipFeatures,
    PermSamples,
    DupSamples(usize),
    ZeroFeatures(usize),
    FlipTargets,
    ScaleTargets(f64),
    ScaleDesign(f64),
    PermTasks,
    RotateTasks,
    /// flip signs of single tasks
    FlipTasks,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    fit: FitCase,
    syms: Vec<Sym>,
    seed: u64,
    layout: Layout,
    knobs: Knobs,
}

/// The transformed problem, model and tolerance factor, and the map of coefficients back.
struct Moved {
    pb: Problem,
    m: Model,
    tol: f64,
    back: Box<dyn Fn(&[f64]) -> Result<Vec<f64>, String>>,
}

fn perm(n: usize, r: &mut Lcg) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        let j = r.below(i + 1);
        v.swap(i, j);
    }
    v
}

fn apply(s: Sym, pb: &Problem, m: &Model, seed: u64) -> Moved {
    let mut r = Lcg(seed);
    let (n, p, t) = (pb.n, pb.p, pb.t);
    let mut q = pb.clone();
    let mut m2 = *m;
    let mut tol = 1.0;
    let back: Box<dyn Fn(&[f64]) -> Result<Vec<f64>, String>> = match s {
        Sym::PermFeatures => {
            let pi = perm(p, &mut r);
            q = pb.keep_cols(&pi);
            Box::new(move |w| {
                let mut o = vec![0.0; w.len()];
                for (a, &j) in pi.iter().enumerate() {
                    o[j * t..(j + 1) * t].copy_from_slice(&w[a * t..(a + 1) * t]);
                }
                Ok(o)
            })
        }
        Sym::FlipFeatures => {
            let sg: Vec<f64> = (0..p).map(|_| if r.below(2) == 0 { 1.0 } else { -1.0 }).collect();
            for i in 0..n {
                for j in 0..p {
                    q.x[i * p + j] *= sg[j];
                }
            }
            Box::new(move |w| Ok(w.iter().enumerate().map(|(i, v)| v * sg[i / t]).collect()))
        }
        Sym::PermSamples => {
            q = pb.keep_rows(&perm(n, &mut r));
            Box::new(|w| Ok(w.to_vec()))
        }
        Sym::DupSamples(k) => {
            let mut rows: Vec<usize> = (0..n * k).map(|i| i % n).collect();
            if seed % 2 == 0 {
                rows = (0..n * k).map(|i| i / k).collect();
            }
            q = pb.keep_rows(&rows);
            Box::new(|w| Ok(w.to_vec()))
        }
        Sym::ZeroFeatures(k) => {
            // zero columns inserted at random places
            let mut place: Vec<Option<usize>> = (0..p).map(Some).collect();
            for _ in 0..k {
                let at = r.below(place.len() + 1);
                place.insert(at, None);
            }
            q.p = place.len();
            q.x = vec![0.0; n * q.p];
            for i in 0..n {
                for (a, s) in place.iter().enumerate() {
                    if let Some(j) = s {
                        q.x[i * q.p + a] = pb.xij(i, *j);
                    }
                }
            }
            Box::new(move |w| {
                let mut o = vec![];
                for (a, s) in place.iter().enumerate() {
                    let row = &w[a * t..(a + 1) * t];
                    match s {
                        Some(_) => o.extend_from_slice(row),
                        None if row.iter().any(|&v| v != 0.0) => return Err(format!("all-zero feature {} has coefficient {:?}", a, row)),
                        None => {}
                    }
                }
                Ok(o)
            })
        }
        Sym::FlipTargets => {
            q.y.iter_mut().for_each(|v| *v = -*v);
            Box::new(|w| Ok(w.iter().map(|v| -v).collect()))
        }
        Sym::ScaleTargets(c) => {
            q.y.iter_mut().for_each(|v| *v *= c);
            tol = c;
            scale_alpha(&mut m2, c, 1.0);
            Box::new(move |w| Ok(w.iter().map(|v| v / c).collect()))
        }
        Sym::ScaleDesign(c) => {
            q.x.iter_mut().for_each(|v| *v *= c);
            tol = c;
            scale_alpha(&mut m2, c, c * c);
            Box::new(move |w| Ok(w.iter().map(|v| v * c).collect()))
        }
        Sym::PermTasks => {
            let pi = perm(t, &mut r);
            q = pb.keep_tasks(&pi);
            Box::new(move |w| {
                let mut o = vec![0.0; w.len()];
                for j in 0..p {
                    for (a, &k) in pi.iter().enumerate() {
                        o[j * t + k] = w[j * t + a];
                    }
                }
                Ok(o)
            })
        }
        Sym::FlipTasks => {
            let sg: Vec<f64> = (0..t).map(|_| if r.below(2) == 0 { 1.0 } else { -1.0 }).collect();
            for i in 0..n {
                for k in 0..t {
                    q.y[i * t + k] *= sg[k];
                }
            }
            Box::new(move |w| Ok(w.iter().enumerate().map(|(i, v)| v * sg[i % t]).collect()))
        }
        Sym::RotateTasks => {
            // a product of two Householder reflections
            let hs: Vec<Vec<f64>> = (0..2)
                .map(|_| {
                    let v: Vec<f64> = (0..t).map(|_| r.below(2001) as f64 / 1000.0 - 1.0 + 1e-4).collect();
                    let nv = norm(&v);
                    v.iter().map(|x| x / nv).collect()
                })
                .collect();
            let refl = |rows: &mut [f64], h: &[f64]| {
                for row in rows.chunks_mut(h.len()) {
                    let d: f64 = row.iter().zip(h).map(|(a, b)| a * b).sum();
                    row.iter_mut().zip(h).for_each(|(a, b)| *a -= 2.0 * d * b);
                }
            };
            for h in &hs {
                refl(&mut q.y, h);
            }
            Box::new(move |w| {
                let mut o = w.to_vec();
                for h in hs.iter().rev() {
                    for row in o.chunks_mut(t) {
                        let d: f64 = row.iter().zip(h).map(|(a, b)| a * b).sum();
                        row.iter_mut().zip(h).for_each(|(a, b)| *a -= 2.0 * d * b);
                    }
                }
                Ok(o)
            })
        }
    };
    Moved { pb: q, m: m2, tol, back }
}

/// Hyperparameters of the problem whose gradients are c times and curvatures h times the original.
fn scale_alpha(m: &mut Model, c: f64, h: f64) {
    match m.pen {
        Pen::L1 => m.alpha *= c,
        Pen::MCP => {
            m.alpha *= c;
            m.gamma /= h;
        }
        Pen::EN => {
            let (l1, l2) = (m.alpha * m.ratio * c, m.alpha * (1.0 - m.ratio) * h);
            m.alpha = l1 + l2;
            m.ratio = if m.alpha > 0.0 { l1 / m.alpha } else { 0.5 };
        }
        Pen::L05 => unreachable!(),
    }
}

impl C13 {
    fn legal(c: &Case) -> bool {
        c.syms.iter().all(|s| match s {
            Sym::PermTasks | Sym::RotateTasks | Sym::FlipTasks => c.fit.model.multi,
            Sym::ScaleTargets(_) | Sym::ScaleDesign(_) => {
                !c.fit.model.logistic && c.fit.model.pen != Pen::L05 && (c.fit.model.pen != Pen::EN || c.fit.model.alpha > 0.0)
            }
            _ => true,
        })
    }
}

impl Property for C13 {
    type Case = Case;
    const ID: &'static str = "C13";
    fn rule(&self) -> String {
        "random problem and model, one to three random symmetries applied in sequence; the fit of the transformed problem, mapped back, is compared with the original fit; non-trivial = plain coordinate descent converges on it, the solution is unique and not zero".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "where the solution is not unique, convex models are compared by objective and predictions".into(),
            "sign flips of features, targets and tasks are also compared step by step (a short fit), for every model".into(),
        ]
    }
    fn gen(&self, g: &mut G) -> Case {
        let kind = g.weighted(&[4, 4, 2]);
        let mut s = match kind {
            0 => Shape::single(),
            1 => Shape::multi(),
            _ => Shape::labels(),
        };
        s.large = 0.002;
        s.max_p = 40;
        if g.bool(0.6) {
            s.min_n = 6;
            s.max_p = 12;
        }
        let pens: &[Pen] = match kind {
            0 => &[Pen::L1, Pen::EN, Pen::MCP, Pen::L05],
            1 => &[Pen::L1, Pen::EN, Pen::MCP],
            _ => &[Pen::EN, Pen::EN, Pen::L1],
        };
        let mut fit = gen_fit_case(g, s, pens, kind == 1);
        long_iterations(&mut fit);
        if fit.model.nonconvex() {
            (fit.knobs.max_iter, fit.knobs.max_epochs) = (200, 2000);
        }
        let mut syms = vec![];
        for _ in 0..g.int(1, 3) {
            let c = if g.bool(0.5) { g.log_range(0.01, 100.0) } else { g.pick(&[0.25, 2.0, 1024.0]) };
            // gamma of MCP must stay >= 1
            let cx = if fit.model.pen == Pen::MCP { c.min(1.0) } else { c };
            syms.push(match g.int(0, if kind == 1 { 11 } else { 7 }) {
                0 => Sym::PermFeatures,
                1 => Sym::FlipFeatures,
                2 => Sym::PermSamples,
                3 => Sym::DupSamples(g.int(2, 4)),
                4 => Sym::ZeroFeatures(g.int(1, 5)),
                5 => Sym::FlipTargets,
                6 => Sym::ScaleTargets(c),
                7 => Sym::ScaleDesign(cx),
                8 | 9 => Sym::RotateTasks,
                10 => Sym::FlipTasks,
                _ => Sym::PermTasks,
            });
        }
        let other = gen_knobs(g, &fit.pb, kind == 2);
        let knobs = Knobs { max_iter: fit.knobs.max_iter, max_epochs: fit.knobs.max_epochs, ..other };
        let mut c = Case { fit, syms, seed: g.u64() % 100_000, layout: Layout::gen(g), knobs };
        if !C13::legal(&c) {
            c.syms = vec![Sym::FlipFeatures, Sym::PermFeatures];
        }
        c
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        if c.syms.len() > 1 {
            for i in 0..c.syms.len() {
                let mut q = c.clone();
                q.syms.remove(i);
                v.push(q);
            }
        }
        v.extend(c.fit.shrink().into_iter().map(|fit| Case { fit, ..c.clone() }));
        for layout in c.layout.shrink() {
            v.push(Case { layout, ..c.clone() });
        }
        for knobs in shrink_knobs(&c.knobs) {
            v.push(Case { knobs, ..c.clone() });
        }
        v.retain(C13::legal);
        v
    }
    fn check(&self, c: &Case) -> Outcome {
        let (pb, m, tol) = (&c.fit.pb, &c.fit.model, c.fit.knobs.tol);
        let (mut q, mut m2, mut tol2) = (pb.clone(), *m, tol);
        let mut backs = vec![];
        for (i, s) in c.syms.iter().enumerate() {
            let mv = apply(*s, &q, &m2, c.seed + 1000 * i as u64);
            q = mv.pb;
            m2 = mv.m;
            tol2 *= mv.tol;
            backs.push(mv.back);
        }
        let unmap = |w: Vec<f64>| -> Result<Vec<f64>, String> { backs.iter().rev().try_fold(w, |w, f| f(&w)) };
        let mut info = Info::new(false)
            .label(format!("{:?}{}{}", m.pen, if m.multi { " multi" } else { "" }, if m.logistic { " logistic" } else { "" }));
        for s in &c.syms {
            info = info.label(format!("{:?}", s).split('(').next().unwrap().to_string());
        }
        // sign flips mirror every step of the solver: every model, whatever its stationary points
        let flips = c.syms.iter().all(|s| matches!(s, Sym::FlipFeatures | Sym::FlipTargets | Sym::FlipTasks));
        if flips {
            let k = Knobs { max_iter: 3, max_epochs: 12, accel: false, ..c.fit.knobs };
            let a = fit(pb, m, &k, &c.fit.layout, c.fit.api)?;
            let b = unmap(fit(&q, &m2, &k, &c.fit.layout, c.fit.api)?)?;
            let wm = a.iter().fold(0.0f64, |s, v| s.max(v.abs()));
            if !(dist(&a, &b) <= 1e-6 * wm) {
                return Err(format!("sign flips {:?}: a short fit is not mirrored, it differs by {:e} (largest coefficient {:e})", c.syms, dist(&a, &b), wm));
            }
        }
        if m2.pen == Pen::MCP && m2.gamma < 1.0 {
            return Ok(info.label("gamma below one after scaling"));
        }
        if !easy(pb, m, tol) || !easy(&q, &m2, tol2) {
            return Ok(info.label("screened"));
        }
        if m.nonconvex() && strong_convexity(pb, m).is_none() {
            return Ok(info.label("several stationary points"));
        }
        let a = c.fit.fit()?;
        let b = unmap(fit(&q, &m2, &Knobs { tol: tol2, ..c.knobs }, &c.layout, c.fit.api)?)?;
        // rounding of the transformation itself (rotations, scalings) adds to the tolerance
        let extra = slack(pb, m, &a, f64::EPSILON);
        let how = compare(pb, m, tol + extra, &a, &b).map_err(|e| format!("{:?}: {}", c.syms, e))?;
        info.nontrivial = how == Agree::Unique && a.iter().any(|&v| v != 0.0);
        Ok(info.label(format!("{:?}", how)))
    }
    fn cases(&self) -> (usize, usize) {
        (200_000, 5_000_000)
    }
}
fn main() {
    run(C13)
}
