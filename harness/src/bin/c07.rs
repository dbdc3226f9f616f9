use harness::prelude::*;
use sparseglm::utils::helpers::{compute_alpha_max, compute_alpha_max_mtl, compute_alpha_max_sparse};

struct C07;
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    fit: FitCase,
    /// alpha * ratio is (1 + above) and (1 - below) times the boundary value
    above: f64,
    below: f64,
}

/// sum of |X_ij Y_ik| of the worst feature: bounds the rounding of the helper
fn scale(pb: &Problem) -> f64 {
    let mut m: f64 = 0.0;
    for j in 0..pb.p {
        let mut s = 0.0;
        for i in 0..pb.n {
            for k in 0..pb.t {
                s += (pb.xij(i, j) * pb.yit(i, k)).abs();
            }
        }
        m = m.max(s);
    }
    m / pb.n as f64
}

impl Property for C07 {
    type Case = Case;
    const ID: &'static str = "C07";
    fn rule(&self) -> String {
        "random dataset, least-squares estimator (L1, elastic net with l1_ratio > 0.05, MCP; single and multi-task), storage layout and knobs; the helpers are compared with the definition and the estimator is fitted at, above and below the boundary; non-trivial = the boundary value is not zero".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["fits at and above the boundary use a tolerance >= 1e-11 of the gradient scale; fits below it a tolerance below the excess".into()]
    }
    fn gen(&self, g: &mut G) -> Case {
        let multi = g.bool(0.5);
        let mut s = if multi { Shape::multi() } else { Shape::single() };
        s.large = 0.003;
        let mut fit = gen_fit_case(g, s, &[Pen::L1, Pen::EN, Pen::MCP], multi);
        fit.model.ratio = fit.model.ratio.max(0.051);
        fit.knobs.max_iter = g.int(1, 12);
        fit.knobs.max_epochs = g.int(1, 40);
        let above = match g.int(0, 3) {
            0 | 1 => 0.0,
            2 => 10f64.powf(g.range(-12.0, -1.0)),
            _ => g.range(0.0, 5.0),
        };
        Case { fit, above, below: 10f64.powf(g.range(-3.0, -0.02)) }
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v: Vec<Case> = c.fit.shrink().into_iter().filter(|f| f.model.ratio > 0.05).map(|fit| Case { fit, ..c.clone() }).collect();
        if c.above != 0.0 {
            v.push(Case { above: 0.0, ..c.clone() });
        }
        if c.below != 0.5 {
            v.push(Case { below: 0.5, ..c.clone() });
        }
        v
    }
    fn check(&self, c: &Case) -> Outcome {
        let (pb, lay) = (&c.fit.pb, &c.fit.layout);
        let want = pb.alpha_max();
        let sc = scale(pb);
        let rnd = 4.0 * f64::EPSILON * (4.0 + (pb.n as f64).sqrt()) * sc;
        let x = XStore::<f64>::build(pb, lay.x, lay.seed);
        let dense = Layout { x: if lay.x.sparse() { XKind::OwnedC } else { lay.x }, ..*lay };
        let xd = XStore::<f64>::build(pb, dense.x, lay.seed);
        let mut got = vec![];
        if pb.t == 1 {
            let y = YStore::<f64>::build(pb, lay.y, true);
            got.push(("compute_alpha_max", compute_alpha_max(xd.dense_view(), y.view1())));
            if lay.x.sparse() {
                got.push(("compute_alpha_max_sparse", compute_alpha_max_sparse(&x.csc(), y.view1())));
            }
        }
        let y2 = YStore::<f64>::build(pb, lay.y, false);
        got.push(("compute_alpha_max_mtl", compute_alpha_max_mtl(xd.dense_view(), y2.view2())));
        for (what, v) in &got {
            if !((v - want).abs() <= rnd) {
                return Err(format!("{} returns {:e}, the definition gives {:e}", what, v, want));
            }
        }
        let helper = got.last().unwrap().1.max(got[0].1);
        let r = if c.fit.model.pen == Pen::EN { c.fit.model.ratio } else { 1.0 };
        let at = |alpha: f64, tol: f64| {
            let mut f = c.fit.clone();
            f.model.alpha = alpha;
            f.knobs.tol = tol;
            f.fit()
        };
        // at and above the boundary
        let tol = (1e-11 * sc).max(4.0 * rnd).max(1e-300);
        let w = at(helper / r * (1.0 + c.above), tol)?;
        if let Some(j) = w.iter().position(|&v| v != 0.0) {
            return Err(format!("alpha * ratio {:e} >= alpha_max {:e}, yet coefficient {} is {:e}", helper * (1.0 + c.above), helper, j, w[j]));
        }
        // clearly below it
        if want * c.below > 100.0 * rnd && want > 0.0 {
            let w = at(want / r * (1.0 - c.below), want * c.below * 1e-2)?;
            if w.iter().all(|&v| v == 0.0) {
                return Err(format!("alpha * ratio is {} times alpha_max, yet all coefficients are zero", 1.0 - c.below));
            }
        }
        Ok(Info::new(want > 0.0)
            .label(format!("{:?}{}", c.fit.model.pen, if c.fit.model.multi { " multi" } else { "" }))
            .label(if lay.x.sparse() { "sparse" } else { "dense" })
            .label_if(c.above == 0.0, "exactly at the boundary")
            .label_if(pb.n < pb.p, "n<p"))
    }
    fn cases(&self) -> (usize, usize) {
        (1_000_000, 30_000_000)
    }
}
fn main() {
    run(C07)
}
