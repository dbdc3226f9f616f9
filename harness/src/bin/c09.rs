use harness::prelude::*;
use harness::unit::*;

struct C09;
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    m: Model,
    t: usize,
    /// row-major p x t coefficients
    w: Vec<f64>,
    /// features scored, in this order
    ws: Vec<usize>,
    /// row-major |ws| x t gradients
    g: Vec<f64>,
    step: f64,
    layout: usize,
}

impl Property for C09 {
    type Case = Case;
    const ID: &'static str = "C09";
    fn rule(&self) -> String {
        "random penalty, coefficient matrix (zero rows, rows at and around the breakpoints), working set (any subset and order), gradients (random, on the subdifferential, or making the coefficient a proximal fixed point) and memory layout; non-trivial = at least one scored feature with a non-zero coefficient row or a positive distance".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "L0.5: only the value is checked, its distance is documented as not computed".into(),
            "alpha = 0 with gamma = infinity excluded".into(),
        ]
    }
    fn gen(&self, g: &mut G) -> Case {
        let multi = g.bool(0.55);
        let mut m = gen_penalty(g, multi, 12.0);
        if m.gamma.is_infinite() && m.alpha == 0.0 {
            m.alpha = 1.0;
        }
        let t = if multi { g.log_int(1, 6) } else { 1 };
        let p = g.log_int(1, 12);
        let mut step = positive(g, 3.0);
        if m.pen == Pen::MCP && m.gamma.is_finite() && step * 1.001 > m.gamma {
            step = m.gamma / g.range(1.01, 10.0);
        }
        let knee = if m.pen == Pen::MCP && m.gamma.is_finite() { m.alpha * m.gamma } else { 1.0 };
        let mut w = vec![0.0; p * t];
        for j in 0..p {
            if g.bool(0.3) {
                continue;
            }
            let row: Vec<f64> = (0..t).map(|_| if g.bool(0.2) { 0.0 } else { g.normal() }).collect();
            let r = norm(&row);
            let target = if g.bool(0.5) { near(g, knee) } else { magnitude(g, 12.0) };
            for k in 0..t {
                w[j * t + k] = if r > 0.0 { row[k] / r * target } else { 0.0 };
            }
        }
        let mut ws = g.perm(p);
        if g.bool(0.6) {
            ws.truncate(g.int(1, p));
        }
        let mut gr = vec![0.0; ws.len() * t];
        for (i, &j) in ws.iter().enumerate() {
            let wj = w[j * t..(j + 1) * t].to_vec();
            let r = norm(&wj);
            let row = &mut gr[i * t..(i + 1) * t];
            match g.int(0, 3) {
                0 => row.iter_mut().for_each(|x| *x = g.normal() * (m.alpha + 0.1)),
                1 => {
                    // minus a subgradient, possibly slightly off
                    let d = if r > 0.0 { dphi(&m, r) } else { dphi0(&m).min(1e6) * g.pick(&[0.0, 0.5, 1.0, 1.0, 1.0 + 1e-6, 2.0]) };
                    let off = g.pick(&[0.0, 0.0, 1e-6, 0.1]);
                    let dir: Vec<f64> = if r > 0.0 { wj.iter().map(|x| x / r).collect() } else { (0..t).map(|_| g.normal()).collect() };
                    let n = norm(&dir);
                    for k in 0..t {
                        row[k] = -d * dir[k] / n + off * g.normal();
                    }
                }
                2 => row.iter_mut().for_each(|x| *x = if g.bool(0.3) { 0.0 } else { g.sign() * magnitude(g, 12.0) }),
                _ => {
                    // the row becomes a fixed point: w = prox(v), gradient (w - v) / step
                    let target = near(g, m.alpha * step + knee.min(1e3) * 0.5);
                    let v: Vec<f64> = (0..t).map(|_| g.normal()).collect();
                    let n = norm(&v);
                    let v: Vec<f64> = v.iter().map(|x| x / n * target).collect();
                    let s = prox_norm(&m, target, step);
                    for k in 0..t {
                        let z = if target > 0.0 { v[k] / target * s } else { 0.0 };
                        w[j * t + k] = z;
                        row[k] = (z - v[k]) / step;
                    }
                }
            }
        }
        Case { m, t, w, ws, g: gr, step, layout: g.int(0, 8) }
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut o = vec![];
        if c.ws.len() > 1 {
            for i in 0..c.ws.len() {
                let mut q = c.clone();
                q.ws.remove(i);
                q.g.drain(i * c.t..(i + 1) * c.t);
                o.push(q);
            }
        }
        let p = c.w.len() / c.t;
        for j in 0..p {
            if p > 1 && !c.ws.contains(&j) {
                let mut q = c.clone();
                q.w.drain(j * c.t..(j + 1) * c.t);
                q.ws.iter_mut().for_each(|k| *k -= (*k > j) as usize);
                o.push(q);
            }
        }
        if c.t > 1 {
            for k in 0..c.t {
                let keep = |v: &[f64]| v.iter().enumerate().filter(|(i, _)| i % c.t != k).map(|x| *x.1).collect::<Vec<_>>();
                o.push(Case { t: c.t - 1, w: keep(&c.w), g: keep(&c.g), ..c.clone() });
            }
        }
        for i in 0..c.w.len() {
            for x in shrink_num(c.w[i]) {
                let mut q = c.clone();
                q.w[i] = x;
                o.push(q);
            }
        }
        for i in 0..c.g.len() {
            for x in shrink_num(c.g[i]) {
                let mut q = c.clone();
                q.g[i] = x;
                o.push(q);
            }
        }
        for m in shrink_penalty(&c.m) {
            o.push(Case { m, ..c.clone() });
        }
        if c.layout != 0 {
            o.push(Case { layout: 0, ..c.clone() });
        }
        o.retain(|c| c.m.alpha > 0.0 && (0.0..=1.0).contains(&c.m.ratio) && c.m.gamma >= 1.0 && (c.m.pen != Pen::MCP || c.step * 1.0009 < c.m.gamma));
        o
    }
    fn check(&self, c: &Case) -> Outcome {
        let (m, t) = (&c.m, c.t);
        let want = pen_value(m, &c.w, t);
        let got = value(m, &c.w, t, c.layout);
        if !((got - want).abs() <= 1e-12 * (want.abs() + c.w.chunks(t).map(|r| value_scale(m, norm(r))).sum::<f64>())) {
            return Err(format!("value {:e}, the formula gives {:e}", got, want));
        }
        let label = format!("{:?}{}", m.pen, if m.multi { " block" } else { "" });
        if m.pen == Pen::L05 {
            return Ok(Info::new(c.w.iter().any(|&x| x != 0.0)).label(label));
        }
        let (d, mx) = subdiff(m, &c.w, &c.g, &c.ws, t, c.layout);
        if d.len() != c.ws.len() {
            return Err(format!("{} distances for {} features", d.len(), c.ws.len()));
        }
        let mut info = Info::new(false).label(label);
        let (mut zero_w, mut knee_in, mut knee_out, mut fixed) = (0, 0, 0, 0);
        for (i, &j) in c.ws.iter().enumerate() {
            let (wj, gj) = (&c.w[j * t..(j + 1) * t], &c.g[i * t..(i + 1) * t]);
            let r = norm(wj);
            let want = row_dist(m, wj, gj);
            // at the knee both formulas are continuous; magnitudes that cancel bound the rounding
            let sc = norm(gj) + dphi_scale(m, r);
            if !((d[i] - want).abs() <= 1e-12 * sc) {
                return Err(format!("feature {}: distance {:e}, definition {:e}", j, d[i], want));
            }
            // zero distance <=> proximal fixed point
            let v: Vec<f64> = wj.iter().zip(gj).map(|(a, b)| a - c.step * b).collect();
            let f = prox(m, ndarray::ArrayView1::from(&v[..]), c.step);
            let res = dist(&f, wj);
            let mag = r + norm(&v) + c.step * sc;
            let cond = if m.pen == Pen::MCP && m.gamma.is_finite() { 1.0 / (1.0 - c.step / m.gamma) } else { 1.0 };
            if d[i] <= 1e-13 * sc && !(res <= 1e-11 * cond * mag) {
                return Err(format!("feature {}: zero distance but the proximal step moves the coefficient by {:e}", j, res));
            }
            if d[i] > 1e-7 * sc && c.step * d[i] > 1e-9 * cond * r && res == 0.0 {
                return Err(format!("feature {}: distance {:e} at a fixed point of the proximal step", j, d[i]));
            }
            if d[i] > 0.0 || r > 0.0 {
                info.nontrivial = true;
            }
            if r == 0.0 {
                zero_w += 1
            } else if m.pen == Pen::MCP && r >= m.alpha * m.gamma {
                knee_out += 1
            } else {
                knee_in += 1
            }
            if d[i] <= 1e-12 * sc {
                fixed += 1
            }
        }
        let want = d.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
        if mx != want {
            return Err(format!("maximum {:e} is not the largest distance {:e}", mx, want));
        }
        info = info
            .label_if(zero_w > 0, "zero row")
            .label_if(knee_in > 0, "inner part")
            .label_if(knee_out > 0, "flat part")
            .label_if(fixed > 0, "fixed point")
            .label_if(c.ws.len() * t < c.w.len(), "strict subset")
            .label_if(c.ws.windows(2).any(|p| p[0] > p[1]), "unsorted working set");
        Ok(info)
    }
    fn cases(&self) -> (usize, usize) {
        (2_500_000, 40_000_000)
    }
}

fn value_scale(m: &Model, r: f64) -> f64 {
    match m.pen {
        Pen::MCP if m.gamma.is_finite() => m.alpha * r.min(m.alpha * m.gamma),
        _ => 0.0,
    }
}
fn dphi_scale(m: &Model, r: f64) -> f64 {
    match m.pen {
        Pen::EN => m.alpha * (m.ratio + (1.0 - m.ratio) * r),
        _ => m.alpha,
    }
}
fn main() {
    run(C09)
}
