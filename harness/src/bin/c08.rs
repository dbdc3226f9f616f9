use harness::prelude::*;
use harness::unit::*;
use sparseglm::utils::prox_funcs::{block_soft_thresholding, prox_05, soft_thresholding};

struct C08;
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    m: Model,
    step: f64,
    v: Vec<f64>,
    layout: usize,
}

/// half squared distance + step * penalty at z
fn h(c: &Case, z: &[f64]) -> f64 {
    let d: Vec<f64> = z.iter().zip(&c.v).map(|(a, b)| a - b).collect();
    let n = norm(&d);
    0.5 * n * n + c.step * phi(&c.m, norm(z))
}

fn judge(c: &Case, out: &[f64], what: &str) -> Result<(), String> {
    let (m, r) = (&c.m, norm(&c.v));
    if out.len() != c.v.len() {
        return Err(format!("{}: length {} for an input of length {}", what, out.len(), c.v.len()));
    }
    if let Some(x) = out.iter().find(|x| !x.is_finite()) {
        return Err(format!("{}: returns {} on finite input", what, x));
    }
    let cond = match m.pen {
        Pen::MCP if m.gamma.is_finite() => 1.0 / (1.0 - c.step / m.gamma),
        _ => 1.0,
    };
    let s = norm(out);
    let want = prox_norm(m, r, c.step);
    // threshold below which zero is the only minimiser
    let thr = breakpoints(m, c.step)[0];
    if r <= thr * (1.0 - 1e-9) && out.iter().any(|&x| x != 0.0) {
        return Err(format!("{}: {:?} is not exactly zero inside the threshold", what, out));
    }
    let tol = 64.0 * f64::EPSILON * cond * (r + thr.min(r));
    let at_jump = m.pen == Pen::L05 && (r - thr).abs() <= 1e-9 * thr;
    if !at_jump && !((s - want).abs() <= tol + 1e-12 * want) {
        return Err(format!("{}: norm {:e} instead of {:e} (input norm {:e})", what, s, want, r));
    }
    // same direction as the input
    for (k, (&o, &x)) in out.iter().zip(&c.v).enumerate() {
        let e = if r > 0.0 { x / r * s } else { 0.0 };
        if !((o - e).abs() <= 1e-13 * s) || o * x < 0.0 {
            return Err(format!("{}: component {} is {:e}, the input's direction gives {:e}", what, k, o, e));
        }
    }
    // no other point is better
    let best = h(c, out);
    let mut cands = vec![0.0, 1.0, want / if r > 0.0 { r } else { 1.0 }];
    for f in [0.5, 0.9, 0.999, 1.001, 1.1, 2.0] {
        cands.push(f * s / if r > 0.0 { r } else { 1.0 });
        cands.push(f);
    }
    for b in breakpoints(m, c.step) {
        cands.push(b / if r > 0.0 { r } else { 1.0 });
    }
    for f in cands {
        if !f.is_finite() {
            continue;
        }
        let z: Vec<f64> = c.v.iter().map(|x| x * f).collect();
        let o = h(c, &z);
        if !(best <= o + 1e-11 * cond * (0.5 * r * r + c.step * phi(m, r.max(s))) + 1e-300) {
            return Err(format!("{}: objective {:e} at the result, {:e} at {} times the input", what, best, o, f));
        }
    }
    Ok(())
}

impl Property for C08 {
    type Case = Case;
    const ID: &'static str = "C08";
    fn rule(&self) -> String {
        "random penalty (7 kinds), hyperparameters, step and input scalar/vector, with magnitudes over 60 decades and inputs at, next to and between the breakpoints; non-trivial = input not zero and step * alpha not zero".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["gamma >= 1.0001 * step for MCP (the scalar problem is not convex otherwise)".into(), "magnitudes within 1e-30..1e30, scalar inputs down to 1e-300".into()]
    }
    fn gen(&self, g: &mut G) -> Case {
        let multi = g.bool(0.5);
        let mut m = gen_penalty(g, multi, 30.0);
        let step = positive(g, 30.0);
        if m.pen == Pen::MCP && m.gamma.is_finite() {
            let k = match g.int(0, 3) {
                0 => 1.0001,
                1 => g.range(1.01, 1.5),
                _ => g.log_range(1.5, 1e3),
            };
            if m.gamma < step * k || g.bool(0.5) {
                m.gamma = step * k;
            }
        }
        let t = if multi { g.log_int(1, 8) } else { 1 };
        let mut v: Vec<f64> = (0..t)
            .map(|_| if g.bool(0.15) { 0.0 } else { g.sign() * magnitude(g, 30.0) })
            .collect();
        if multi && g.bool(0.5) {
            v = (0..t).map(|_| g.int(0, 8) as f64 - 4.0).collect();
        }
        if g.bool(0.7) {
            // rescale to a breakpoint
            let b = breakpoints(&m, step);
            let b = g.pick(&b);
            let target = near(g, b);
            let r = norm(&v);
            if r > 0.0 && target > 0.0 {
                v.iter_mut().for_each(|x| *x *= target / r);
            } else {
                v[0] = target * g.sign();
            }
        }
        // magnitudes stay inside the stated range
        v.iter_mut().for_each(|x| {
            if x.abs() > 1e30 {
                *x = x.signum() * 1e30
            } else if x.abs() < 1e-30 {
                *x = 0.0
            }
        });
        // scalar operators do not square their input: tiny values are legitimate
        if !multi && g.bool(0.03) {
            v[0] = g.sign() * 10f64.powf(g.range(-300.0, -30.0));
        }
        Case { m, step, v, layout: g.int(0, 2) }
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut o = vec![];
        for i in 0..c.v.len() {
            if c.v.len() > 1 {
                let mut v = c.v.clone();
                v.remove(i);
                o.push(Case { v, ..c.clone() });
            }
            for x in shrink_num(c.v[i]) {
                let mut v = c.v.clone();
                v[i] = x;
                o.push(Case { v, ..c.clone() });
            }
        }
        for step in shrink_num(c.step) {
            o.push(Case { step, ..c.clone() });
        }
        for m in shrink_penalty(&c.m) {
            o.push(Case { m, ..c.clone() });
        }
        if c.layout != 0 {
            o.push(Case { layout: 0, ..c.clone() });
        }
        o.retain(|c| c.step > 0.0 && c.m.alpha >= 0.0 && (0.0..=1.0).contains(&c.m.ratio) && (c.m.pen != Pen::MCP || c.m.gamma >= 1.0001 * c.step));
        o
    }
    fn check(&self, c: &Case) -> Outcome {
        let m = &c.m;
        let b = vecl(&c.v, c.layout);
        let out = prox(m, vec_view(&b, c.layout), c.step);
        judge(c, &out, "prox")?;
        let s = c.step * m.alpha;
        // the functions the operators are built from
        match m.pen {
            Pen::L1 if m.multi => judge(c, &block_soft_thresholding(vec_view(&b, c.layout), s).to_vec(), "block_soft_thresholding")?,
            Pen::L1 => judge(c, &[soft_thresholding(c.v[0], s)], "soft_thresholding")?,
            Pen::L05 => judge(c, &[prox_05(c.v[0], s)], "prox_05")?,
            _ => {}
        }
        let r = norm(&c.v);
        let zero = out.iter().all(|&x| x == 0.0);
        let at = breakpoints(m, c.step).iter().any(|&b| (r - b).abs() <= 1e-9 * b);
        Ok(Info::new(r > 0.0 && s > 0.0)
            .label(format!("{:?}{}", m.pen, if m.multi { " block" } else { "" }))
            .label(if r == 0.0 { "zero input" } else if zero { "thresholded" } else if out == c.v { "unchanged" } else { "shrunk" })
            .label_if(at && r > 0.0, "at a breakpoint")
            .label_if(m.alpha == 0.0, "alpha = 0")
            .label_if(m.pen == Pen::MCP && m.gamma.is_infinite(), "gamma = infinity"))
    }
    fn cases(&self) -> (usize, usize) {
        (5_000_000, 60_000_000)
    }
}
fn main() {
    run(C08)
}
