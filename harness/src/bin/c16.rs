use harness::prelude::*;

struct C16;
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    fit: FitCase,
    single: bool,
}

fn gen_degenerate(g: &mut G, n: usize, p: usize, e: f64) -> Vec<f64> {
    let mut x = vec![0.0; n * p];
    let num = |g: &mut G| match g.int(0, 9) {
        0 => 0.0,
        1 => 1.0,
        2 => -1.0,
        3 => g.int(0, 20) as f64 - 10.0,
        4 => g.sign() * 10f64.powf(g.range(-e, e)),
        5 => 1e-8 * g.normal(),
        _ => g.normal(),
    };
    let kind = g.int(0, 7);
    let c0 = num(g);
    for j in 0..p {
        let scale = if kind == 5 { 10f64.powf(g.range(-e, e)) } else { 1.0 };
        for i in 0..n {
            x[i * p + j] = match kind {
                0 => num(g),
                1 => c0,
                2 => 0.0,
                3 => (i == j) as u8 as f64,
                4 => (i + 1) as f64 * (j + 1) as f64,
                5 => scale * g.normal(),
                6 => if g.bool(0.1) { num(g) } else { 0.0 },
                _ => g.normal(),
            };
        }
    }
    for _ in 0..g.int(0, 3) {
        let (j, k) = (g.int(0, p - 1), g.int(0, p - 1));
        let s = match g.int(0, 4) {
            0 => 0.0,
            1 => 1.0,
            2 => -1.0,
            3 => 1.0 + 1e-15,
            _ => num(g).clamp(-1e3, 1e3),
        };
        for i in 0..n {
            x[i * p + j] = x[i * p + k] * s;
        }
    }
    let m = 10f64.powf(e);
    x.iter_mut().for_each(|v| {
        *v = v.clamp(-m, m);
        if v.abs() < 1.0 / m {
            *v = 0.0
        }
    });
    x
}

impl Property for C16 {
    type Case = Case;
    const ID: &'static str = "C16";
    fn rule(&self) -> String {
        "random degenerate dataset (single sample or feature, constant, zero, duplicated, collinear and badly scaled columns, extreme magnitudes, zero targets), any model incl. MCP with any gamma >= 1, any validated knobs, either precision; non-trivial = the fit has a non-zero coefficient or the data has a degenerate column".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "magnitudes of data and alpha within 1e-60..1e60 (1e-7..1e7 in single precision), window at most 400: beyond these the arithmetic itself over- or underflows or memory runs out".into(),
            "no MCP with alpha = 0 and infinite gamma together (infinity times zero)".into(),
        ]
    }
    fn gen(&self, g: &mut G) -> Case {
        let single = g.bool(0.25);
        let e = if single { g.pick(&[1.0, 3.0, 7.0]) } else { g.pick(&[2.0, 8.0, 30.0, 60.0]) };
        let kind = g.weighted(&[4, 4, 3]);
        let multi = kind == 1;
        let logistic = kind == 2;
        let dim = |g: &mut G, hi: usize| match g.int(0, 4) {
            0 => 1,
            1 => 2,
            _ => g.log_int(1, hi),
        };
        let (mut n, mut p) = (dim(g, 40), dim(g, 40));
        let mut t = if multi { dim(g, 8) } else { 1 };
        if g.bool(0.008) {
            // far beyond the usual sizes in one direction
            match g.int(0, 3) {
                0 => (n, p) = (g.log_int(100, 3000), p.min(6)),
                1 => (n, p, t) = (n.min(6), g.log_int(100, 2000), t.min(3)),
                2 if multi => (n, p, t) = (n.min(8), p.min(8), g.log_int(9, 100)),
                _ => (n, p, t) = (g.log_int(40, 300), g.log_int(40, 300), t.min(3)),
            }
        }
        let x = gen_degenerate(g, n, p, e);
        let y: Vec<f64> = if logistic {
            let s = g.sign();
            let mixed = g.bool(0.7);
            (0..n).map(|_| if mixed { g.sign() } else { s }).collect()
        } else {
            gen_degenerate(g, n, t, e)
        };
        let pb = Problem { n, p, t, x, y };
        let pens: &[Pen] = if multi { &[Pen::L1, Pen::EN, Pen::MCP] } else { &[Pen::L1, Pen::EN, Pen::MCP, Pen::L05] };
        let mut m = gen_model(g, &pb, pens, logistic, multi);
        if g.bool(0.3) {
            m.alpha = match g.int(0, 3) {
                0 => 0.0,
                1 => 1.0,
                2 => 10f64.powf(-e),
                _ => 10f64.powf(g.range(-e, e)),
            };
        }
        m.alpha = m.alpha.clamp(0.0, 10f64.powf(e));
        if m.pen == Pen::MCP {
            m.gamma = match g.int(0, 5) {
                0 => 1.0,
                1 => f64::INFINITY,
                2 => 3.0,
                3 => 1.0 + 1e-6,
                _ => 10f64.powf(g.range(0.0, e)),
            };
            if m.gamma.is_infinite() && m.alpha == 0.0 {
                m.alpha = 1.0;
            }
        }
        let tol = match g.int(0, 3) {
            0 => 0.0,
            1 => pb.scale() * 1e-9,
            2 => g.log_range(1e-12, 1.0),
            _ => pb.scale() * g.log_range(1e-12, 1e-2),
        };
        let mut knobs = Knobs {
            ws: match g.int(0, 5) {
                0 => 1,
                1 => p,
                2 => usize::MAX,
                3 => p + g.int(1, 1000),
                _ => g.int(1, p),
            },
            k: match g.int(0, 5) {
                0 => 1,
                1 => g.log_int(1, 400),
                2 => (p * t).min(400) + g.int(1, 5),
                3 => 5,
                _ => g.int(2, 12),
            },
            accel: g.bool(0.8),
            max_iter: g.pick(&[0, 1, 2, 5, 10, 50]),
            max_epochs: g.pick(&[0, 1, 3, 12, 50, 100, 410]),
            tol,
            verbose: g.bool(0.02),
        };
        // bound the cubic cost of long windows
        knobs.max_iter = knobs.max_iter.min((200_000 / (knobs.k * knobs.k)).max(2));
        let work = n * p * t * knobs.max_epochs.max(1);
        knobs.max_iter = knobs.max_iter.min((20_000_000 / work).max(2));
        let api = if g.bool(0.6) { Api::Estimator } else { Api::Solver };
        Case { single, fit: FitCase { model: m, knobs, layout: Layout::gen(g), api, pb } }
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let f = &c.fit;
        let mut v = vec![];
        for pb in shrink_problem(&f.pb) {
            v.push(FitCase { pb, ..f.clone() });
        }
        for layout in f.layout.shrink() {
            v.push(FitCase { layout, ..f.clone() });
        }
        for knobs in shrink_knobs(&f.knobs) {
            v.push(FitCase { knobs, ..f.clone() });
        }
        for it in [1, f.knobs.max_iter / 2] {
            if it < f.knobs.max_iter && it > 0 {
                v.push(FitCase { knobs: Knobs { max_iter: it, ..f.knobs }, ..f.clone() });
            }
        }
        for it in [1, f.knobs.max_epochs / 2, f.knobs.max_epochs.saturating_sub(1)] {
            if it < f.knobs.max_epochs && it > 0 {
                v.push(FitCase { knobs: Knobs { max_epochs: it, ..f.knobs }, ..f.clone() });
            }
        }
        for model in shrink_model(&f.model) {
            v.push(FitCase { model, ..f.clone() });
        }
        v.retain(|f| !(f.model.pen == Pen::MCP && f.model.gamma.is_infinite() && f.model.alpha == 0.0) && (f.model.pen != Pen::MCP || f.model.gamma >= 1.0));
        let mut out: Vec<Case> = v.into_iter().map(|fit| Case { fit, ..c.clone() }).collect();
        if c.single {
            out.push(Case { single: false, ..c.clone() });
        }
        out
    }
    fn check(&self, c: &Case) -> Outcome {
        let (pb, m, k) = (&c.fit.pb, &c.fit.model, &c.fit.knobs);
        let w = if c.single {
            fit_t::<f32>(pb, m, k, &c.fit.layout, c.fit.api)?
        } else {
            c.fit.fit()?
        };
        if w.len() != pb.p * pb.t {
            return Err(format!("{} coefficients", w.len()));
        }
        if let Some(v) = w.iter().find(|v| !v.is_finite()) {
            return Err(format!("non-finite coefficient {}", v));
        }
        if k.max_iter == 0 || k.max_epochs == 0 {
            if w.iter().any(|&v| v != 0.0) {
                return Err("no budget, yet coefficients moved".into());
            }
        }
        if !m.nonconvex() {
            // the data as the fit saw it
            let seen = if c.single {
                Problem { x: pb.x.iter().map(|&v| v as f32 as f64).collect(), y: pb.y.iter().map(|&v| v as f32 as f64).collect(), ..pb.clone() }
            } else {
                pb.clone()
            };
            let (o, o0) = (objective(&seen, m, &w), objective(&seen, m, &vec![0.0; w.len()]));
            let aw: Vec<f64> = w.iter().map(|v| v.abs()).collect();
            let ab = Problem { x: seen.x.iter().map(|v| v.abs()).collect(), ..seen.clone() };
            let big = norm(&ab.xw(&aw)) + norm(&seen.y);
            let eps = if c.single { 1e-4 } else { 1e-9 };
            let rise = if m.logistic { eps * (1.0 + big) } else { eps * big * big / pb.n as f64 };
            if !(o <= o0 * (1.0 + 1e-6) + rise) {
                return Err(format!("objective {:e} above the null model's {:e}", o, o0));
            }
        }
        let lips = pb.lips();
        let zero = lips.iter().filter(|&&l| l == 0.0).count();
        for j in 0..pb.p {
            if pb.x.iter().skip(j).step_by(pb.p).all(|&v| v == 0.0) && w[j * pb.t..(j + 1) * pb.t].iter().any(|&v| v != 0.0) {
                return Err(format!("all-zero column {} has a non-zero coefficient", j));
            }
        }
        let moved = w.iter().any(|&v| v != 0.0);
        Ok(Info::new(moved || zero > 0)
            .label(format!("{:?}{}{}", m.pen, if m.multi { " multi" } else { "" }, if m.logistic { " logistic" } else { "" }))
            .label_if(moved, "non-zero fit")
            .label_if(zero > 0, "zero column")
            .label_if(pb.n == 1, "one sample")
            .label_if(pb.p == 1, "one feature")
            .label_if(c.single, "f32")
            .label_if(k.accel && k.k > pb.p * pb.t, "window larger than the coefficients")
            .label_if(k.ws > pb.p, "working set above p")
            .label_if(m.pen == Pen::MCP && !mcp_domain(pb, m), "MCP with non-convex coordinate problems"))
    }
    fn cases(&self) -> (usize, usize) {
        (300_000, 20_000_000)
    }
}
fn main() {
    run(C16)
}
