use harness::dfit::*;
use harness::prelude::*;
use harness::unit::shrink_num;

struct C10;
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    logistic: bool,
    multi: bool,
    layout: Layout,
    kind: usize,
    pb: Problem,
    /// predictions
    xw: Vec<f64>,
    /// feature along which the upper bound is probed, and displacement per task
    j: usize,
    d: Vec<f64>,
}

impl Property for C10 {
    type Case = Case;
    const ID: &'static str = "C10";
    fn rule(&self) -> String {
        "random dataset (n up to thousands, tasks up to dozens), datafit (quadratic, logistic, multi-task), storage layout, predictions (model fits, random, extreme up to 1e6 times the data) and a coordinate displacement; non-trivial = the probed column and the displacement are not zero".into()
    }
    fn gen(&self, g: &mut G) -> Case {
        let kind = g.weighted(&[4, 5, 4]);
        let mut s = match kind {
            0 => Shape::single(),
            1 => Shape::labels(),
            _ => Shape::multi(),
        };
        (s.max_n, s.max_p) = (60, 25);
        (s.large, s.tail) = (0.002, [0, 2, 1, 0, 2, 2]);
        if kind == 2 {
            s.max_t = 40;
        }
        if g.bool(0.01) {
            (s.min_n, s.max_n, s.max_p, s.max_t) = (500, 4000, 6, s.max_t.min(5));
        }
        let pb = gen_problem(g, s);
        let (n, t) = (pb.n, pb.t);
        let ymag = norm(&pb.y) / ((n * t) as f64).sqrt() + 1e-3;
        let f = g.pick(&[0.1, 1.0, 10.0, 1e3, 1e6]);
        let mut xw: Vec<f64> = match g.int(0, 3) {
            0 => vec![0.0; n * t],
            1 => {
                let w: Vec<f64> = (0..pb.p * t).map(|_| if g.bool(0.5) { 0.0 } else { g.normal() * f }).collect();
                pb.xw(&w)
            }
            _ => (0..n * t).map(|_| g.normal() * f * ymag).collect(),
        };
        if g.bool(0.3) {
            // around the places where exp saturates
            for v in xw.iter_mut() {
                if g.bool(0.4) {
                    *v = g.sign() * g.pick(&[0.0, 20.0, 36.0, 37.5, 40.0, 88.8, 104.0, 700.0, 709.5, 710.0, 745.5, 800.0, 1e4]) * g.range(0.98, 1.02);
                }
            }
        }
        let j = g.int(0, pb.p - 1);
        let df = g.pick(&[1e-3, 1.0, 30.0, 1e3]);
        let d = (0..t).map(|_| g.normal() * df).collect();
        Case { logistic: kind == 1, multi: kind == 2, layout: Layout::gen(g), kind: g.int(0, 2), pb, xw, j, d }
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut o = vec![];
        let (n, p, t) = (c.pb.n, c.pb.p, c.pb.t);
        for h in [(0..n / 2).collect::<Vec<_>>(), (n / 2..n).collect()].into_iter().chain((0..n.min(12)).map(|d| (0..n).filter(|&i| i != d).collect())) {
            if !h.is_empty() && h.len() < n {
                let xw = h.iter().flat_map(|&i| c.xw[i * t..(i + 1) * t].to_vec()).collect();
                o.push(Case { pb: c.pb.keep_rows(&h), xw, ..c.clone() });
            }
        }
        if p > 1 {
            o.push(Case { pb: c.pb.keep_cols(&[c.j]), j: 0, ..c.clone() });
            for k in 0..p {
                if k != c.j {
                    let cols: Vec<usize> = (0..p).filter(|&i| i != k).collect();
                    o.push(Case { pb: c.pb.keep_cols(&cols), j: c.j - (c.j > k) as usize, ..c.clone() });
                }
            }
        }
        if t > 1 {
            for k in 0..t {
                let ts: Vec<usize> = (0..t).filter(|&i| i != k).collect();
                let xw = c.xw.iter().enumerate().filter(|(i, _)| i % t != k).map(|x| *x.1).collect();
                let mut d = c.d.clone();
                d.remove(k);
                o.push(Case { pb: c.pb.keep_tasks(&ts), xw, d, ..c.clone() });
            }
        }
        for layout in c.layout.shrink() {
            o.push(Case { layout, ..c.clone() });
        }
        if n * t <= 12 {
            for i in 0..n * t {
                for x in shrink_num(c.xw[i]) {
                    let mut q = c.clone();
                    q.xw[i] = x;
                    o.push(q);
                }
            }
            for i in 0..n * p {
                for x in shrink_num(c.pb.x[i]) {
                    let mut q = c.clone();
                    q.pb.x[i] = x;
                    o.push(q);
                }
            }
        }
        o
    }
    fn check(&self, c: &Case) -> Outcome {
        let (pb, t) = (&c.pb, c.pb.t);
        let (n, nf) = (pb.n, pb.n as f64);
        let mut moved = c.xw.clone();
        for i in 0..n {
            for k in 0..t {
                moved[i * t + k] += pb.xij(i, c.j) * c.d[k];
            }
        }
        let q = quantities::<f64>(pb, c.logistic, c.multi, &c.layout, &[c.xw.clone(), moved.clone()], c.kind)?;
        // values
        let rnd = (nf * t as f64).sqrt() * f64::EPSILON * 8.0;
        for (what, xw, v) in [("value", &c.xw, q.values[0]), ("value after the move", &moved, q.values[1])] {
            let want = fit_value(pb, c.logistic, xw);
            if !v.is_finite() || v < 0.0 {
                return Err(format!("{}: {:e} is not finite and non-negative (formula {:e})", what, v, want));
            }
            let sl = if c.logistic { 4.0 * f64::EPSILON } else { 0.0 };
            if !((v - want).abs() <= (1e-13 + rnd) * want + sl) {
                return Err(format!("{}: {:e}, formula {:e}", what, v, want));
            }
        }
        // constants
        for (j, l) in pb.lips().into_iter().enumerate() {
            let l = l * if c.logistic { 0.25 } else { 1.0 };
            if !((q.lips[j] - l).abs() <= (1e-13 + rnd) * l) {
                return Err(format!("constant of feature {}: {:e}, formula {:e}", j, q.lips[j], l));
            }
        }
        // gradients
        let want = gradient(pb, c.logistic, &c.xw);
        for j in 0..pb.p {
            for k in 0..t {
                let i = j * t + k;
                let mut sc = 0.0;
                for r in 0..n {
                    let y = pb.yit(r, k).abs();
                    sc += pb.xij(r, j).abs() * if c.logistic { y } else { y + c.xw[r * t + k].abs() };
                }
                sc /= nf;
                for (what, v) in [("gradient_j", q.grads[i]), ("full_grad", q.full[i])] {
                    if !((v - want[i]).abs() <= (1e-13 + rnd) * sc) {
                        return Err(format!("{}: {:e} for feature {} task {}, formula {:e}", what, v, j, k, want[i]));
                    }
                }
            }
        }
        // first-order lower bound (convexity) and quadratic upper bound along one coordinate
        let gd: f64 = (0..t).map(|k| q.grads[c.j * t + k] * c.d[k]).sum();
        let dn = norm(&c.d);
        let quad = 0.5 * q.lips[c.j] * dn * dn;
        let mut sc = q.values[0] + q.values[1] + quad + gd.abs();
        let bigxw = norm(&c.xw) * norm(&c.xw) / nf;
        sc += if c.logistic { (norm(&c.xw) + norm(&moved)) / nf.sqrt() } else { bigxw };
        let sl = (1e-12 + rnd) * sc;
        if !(q.values[1] <= q.values[0] + gd + quad + sl) {
            return Err(format!("value {:e} above the quadratic bound {:e}", q.values[1], q.values[0] + gd + quad));
        }
        if !(q.values[1] >= q.values[0] + gd - sl) {
            return Err(format!("value {:e} below the tangent {:e}", q.values[1], q.values[0] + gd));
        }
        Ok(Info::new(q.lips[c.j] > 0.0 && dn > 0.0)
            .label(if c.logistic { "logistic" } else if c.multi { "multi-task" } else { "quadratic" })
            .label(if c.layout.x.sparse() { "sparse" } else { "dense" })
            .label_if(c.logistic && c.xw.iter().zip(&pb.y).any(|(x, y)| -x * y > 709.0), "margin beyond exp range")
            .label_if(n > 400, "n > 400")
            .label_if(t > 12, "more than a dozen tasks"))
    }
    fn cases(&self) -> (usize, usize) {
        (1_500_000, 30_000_000)
    }
}
fn main() {
    run(C10)
}
