//! Independent reference: objective, optimality conditions, plain coordinate descent, all written
//! from the documented formulas in plain loops, sharing nothing with the code under test.
use crate::problem::*;

/// penalty of one row of norm r (>= 0)
pub fn phi(m: &Model, r: f64) -> f64 {
    match m.pen {
        Pen::L1 => m.alpha * r,
        Pen::EN => m.alpha * (m.ratio * r + 0.5 * (1.0 - m.ratio) * r * r),
        Pen::MCP => {
            if m.gamma.is_infinite() {
                m.alpha * r
            } else if r <= m.alpha * m.gamma {
                m.alpha * r - r * r / (2.0 * m.gamma)
            } else {
                0.5 * m.gamma * m.alpha * m.alpha
            }
        }
        Pen::L05 => m.alpha * r.sqrt(),
    }
}

pub fn norm(v: &[f64]) -> f64 {
    if v.len() == 1 {
        return v[0].abs();
    }
    v.iter().map(|x| x * x).sum::<f64>().sqrt()
}

pub fn pen_value(m: &Model, w: &[f64], t: usize) -> f64 {
    w.chunks(t).map(|r| phi(m, norm(r))).sum()
}

/// log(1 + exp(z)) without overflow
pub fn log1pexp(z: f64) -> f64 {
    if z > 0.0 {
        z + (-z).exp().ln_1p()
    } else {
        z.exp().ln_1p()
    }
}

pub fn sigmoid(z: f64) -> f64 {
    if z >= 0.0 {
        1.0 / (1.0 + (-z).exp())
    } else {
        let e = z.exp();
        e / (1.0 + e)
    }
}

pub fn fit_value(pb: &Problem, logistic: bool, xw: &[f64]) -> f64 {
    let mut s = 0.0;
    for i in 0..pb.y.len() {
        if logistic {
            s += log1pexp(-pb.y[i] * xw[i]);
        } else {
            let r = pb.y[i] - xw[i];
            s += 0.5 * r * r;
        }
    }
    s / pb.n as f64
}

pub fn objective(pb: &Problem, m: &Model, w: &[f64]) -> f64 {
    fit_value(pb, m.logistic, &pb.xw(w)) + pen_value(m, w, pb.t)
}

/// gradient of the datafit, row-major p x t
pub fn gradient(pb: &Problem, logistic: bool, xw: &[f64]) -> Vec<f64> {
    let mut r = vec![0.0; pb.n * pb.t];
    for i in 0..r.len() {
        r[i] = if logistic {
            -pb.y[i] * sigmoid(-pb.y[i] * xw[i])
        } else {
            xw[i] - pb.y[i]
        };
    }
    let mut g = vec![0.0; pb.p * pb.t];
    for i in 0..pb.n {
        for j in 0..pb.p {
            let v = pb.x[i * pb.p + j];
            if v != 0.0 {
                for t in 0..pb.t {
                    g[j * pb.t + t] += v * r[i * pb.t + t];
                }
            }
        }
    }
    let n = pb.n as f64;
    g.iter_mut().for_each(|v| *v /= n);
    g
}

/// derivative of phi at r > 0
pub fn dphi(m: &Model, r: f64) -> f64 {
    match m.pen {
        Pen::L1 => m.alpha,
        Pen::EN => m.alpha * (m.ratio + (1.0 - m.ratio) * r),
        Pen::MCP => {
            if m.gamma.is_infinite() {
                m.alpha
            } else {
                (m.alpha - r / m.gamma).max(0.0)
            }
        }
        Pen::L05 => 0.5 * m.alpha / r.sqrt(),
    }
}

/// right derivative of phi at 0
pub fn dphi0(m: &Model) -> f64 {
    match m.pen {
        Pen::L1 | Pen::MCP => m.alpha,
        Pen::EN => m.alpha * m.ratio,
        Pen::L05 => {
            if m.alpha > 0.0 {
                f64::INFINITY
            } else {
                0.0
            }
        }
    }
}

/// distance of -grad to the subdifferential of the penalty at w (one row)
pub fn row_dist(m: &Model, w: &[f64], g: &[f64]) -> f64 {
    let r = norm(w);
    if w.iter().all(|&v| v == 0.0) {
        (norm(g) - dphi0(m)).max(0.0)
    } else {
        let d = dphi(m, r);
        norm(
            &w.iter()
                .zip(g)
                .map(|(&wi, &gi)| gi + d * (wi / r))
                .collect::<Vec<_>>(),
        )
    }
}

/// global minimiser scale: prox of step*phi at norm r, valid for MCP when gamma > step
pub fn prox_norm(m: &Model, r: f64, step: f64) -> f64 {
    match m.pen {
        Pen::L1 => (r - m.alpha * step).max(0.0),
        Pen::EN => {
            (r - m.alpha * m.ratio * step).max(0.0) / (1.0 + step * m.alpha * (1.0 - m.ratio))
        }
        Pen::MCP => {
            if m.gamma.is_infinite() {
                (r - m.alpha * step).max(0.0)
            } else if r <= m.alpha * step {
                0.0
            } else if r > m.alpha * m.gamma {
                r
            } else {
                (r - m.alpha * step) / (1.0 - step / m.gamma)
            }
        }
        Pen::L05 => prox_half(r, m.alpha * step),
    }
}

/// argmin_x 0.5 (x - r)^2 + s sqrt(x), x >= 0, r >= 0, by bisection on the outer stationary point
pub fn prox_half(r: f64, s: f64) -> f64 {
    if s == 0.0 {
        return r;
    }
    // stationary: x - r + s / (2 sqrt x) = 0; convex part x >= (s/4)^(2/3)
    let lo0 = (s / 4.0).powf(2.0 / 3.0);
    let f = |x: f64| x - r + 0.5 * s / x.sqrt();
    if lo0 >= r || f(lo0) >= 0.0 {
        return 0.0;
    }
    let (mut lo, mut hi) = (lo0, r);
    for _ in 0..200 {
        let mid = 0.5 * (lo + hi);
        if f(mid) < 0.0 {
            lo = mid
        } else {
            hi = mid
        }
    }
    let x = 0.5 * (lo + hi);
    if 0.5 * (x - r) * (x - r) + s * x.sqrt() < 0.5 * r * r {
        x
    } else {
        0.0
    }
}

/// per-feature violation; for L05 the fixed-point residual (coefficient units, not gradient units)
pub fn violations(pb: &Problem, m: &Model, w: &[f64]) -> Vec<f64> {
    let t = pb.t;
    let g = gradient(pb, m.logistic, &pb.xw(w));
    (0..pb.p)
        .map(|j| {
            let wj = &w[j * t..(j + 1) * t];
            let gj = &g[j * t..(j + 1) * t];
            if m.pen == Pen::L05 {
                let l = pb.lip(j) * if m.logistic { 0.25 } else { 1.0 };
                if l == 0.0 {
                    return 0.0;
                }
                let v: Vec<f64> = wj.iter().zip(gj).map(|(a, b)| a - b / l).collect();
                let r = norm(&v);
                let dist = |pr: f64| {
                    norm(
                        &wj.iter()
                            .zip(&v)
                            .map(|(a, b)| a - if r > 0.0 { b / r * pr } else { 0.0 })
                            .collect::<Vec<_>>(),
                    )
                };
                let d = dist(prox_norm(m, r, 1.0 / l));
                // at the jump of the operator both 0 and the outer point are fixed points
                let jump = 1.5 * (m.alpha / l).powf(2.0 / 3.0);
                if (r - jump).abs() <= 1e-9 * jump {
                    let d2 = dist(prox_norm(m, r * (1.0 + 1e-8), 1.0 / l));
                    let d3 = dist(prox_norm(m, r * (1.0 - 1e-8), 1.0 / l));
                    return (d.min(d2).min(d3) - 1e-7 * r).max(0.0);
                }
                d
            } else {
                row_dist(m, wj, gj)
            }
        })
        .collect()
}

pub fn max_violation(pb: &Problem, m: &Model, w: &[f64]) -> f64 {
    violations(pb, m, w).into_iter().fold(0.0, f64::max)
}

/// largest violation beyond the rounding slack of each feature
pub fn max_excess(pb: &Problem, m: &Model, w: &[f64], eps: f64) -> f64 {
    let sl = slack(pb, m, w, eps);
    let k = if m.logistic { 0.25 } else { 1.0 };
    violations(pb, m, w)
        .into_iter()
        .enumerate()
        .map(|(j, v)| {
            let l = pb.lip(j) * k;
            if m.pen == Pen::L05 && l > 0.0 {
                v - sl / l - 1e-13 * norm(&w[j * pb.t..(j + 1) * pb.t])
            } else {
                v - sl
            }
        })
        .fold(0.0, f64::max)
}

/// rounding slack for gradient-like quantities at w
pub fn slack(pb: &Problem, m: &Model, w: &[f64], eps: f64) -> f64 {
    let t = pb.t;
    let absw: Vec<f64> = w.iter().map(|v| v.abs()).collect();
    let ab = Problem {
        x: pb.x.iter().map(|v| v.abs()).collect(),
        ..pb.clone()
    };
    let xw = ab.xw(&absw);
    let nx = norm(&xw);
    let colmax = pb
        .lips()
        .into_iter()
        .fold(0.0f64, f64::max)
        .sqrt();
    let ny = norm(&pb.y);
    let wmax = w.chunks(t).map(norm).fold(0.0, f64::max);
    let rn = (pb.n as f64).sqrt();
    let dim = 4.0 + rn;
    let mut s = colmax * (ny + nx) / rn + m.alpha;
    if m.pen == Pen::EN {
        s += m.alpha * wmax;
    }
    200.0 * dim * eps * s
}

pub struct RefFit {
    pub w: Vec<f64>,
    /// epochs used, None when the tolerance was not reached
    pub epochs: Option<usize>,
    pub kkt: f64,
}

/// plain cyclic (block) proximal coordinate descent from zero on all features
pub fn ref_cd(pb: &Problem, m: &Model, tol: f64, max_epochs: usize) -> RefFit {
    ref_cd_from(pb, m, tol, max_epochs, vec![0.0; pb.p * pb.t])
}

/// the same from a given start
pub fn ref_cd_from(
    pb: &Problem,
    m: &Model,
    tol: f64,
    max_epochs: usize,
    mut w: Vec<f64>,
) -> RefFit {
    let (n, p, t) = (pb.n, pb.p, pb.t);
    let nf = n as f64;
    // column-major copy for speed
    let mut xc = vec![0.0; n * p];
    for i in 0..n {
        for j in 0..p {
            xc[j * n + i] = pb.x[i * p + j];
        }
    }
    let lip: Vec<f64> = pb
        .lips()
        .into_iter()
        .map(|l| if m.logistic { l / 4.0 } else { l })
        .collect();
    let mut xw = pb.xw(&w);
    let mut kkt = f64::INFINITY;
    let mut gj = vec![0.0; t];
    for ep in 0..=max_epochs {
        if ep % 5 == 0 || ep == max_epochs {
            kkt = max_violation(pb, m, &w);
            if kkt <= tol {
                return RefFit {
                    w,
                    epochs: Some(ep),
                    kkt,
                };
            }
        }
        for j in 0..p {
            if lip[j] == 0.0 {
                continue;
            }
            let col = &xc[j * n..(j + 1) * n];
            gj.iter_mut().for_each(|v| *v = 0.0);
            for i in 0..n {
                let v = col[i];
                if v != 0.0 {
                    for k in 0..t {
                        let r = if m.logistic {
                            -pb.y[i] * sigmoid(-pb.y[i] * xw[i])
                        } else {
                            xw[i * t + k] - pb.y[i * t + k]
                        };
                        gj[k] += v * r;
                    }
                }
            }
            let mut v: Vec<f64> = (0..t)
                .map(|k| w[j * t + k] - gj[k] / nf / lip[j])
                .collect();
            let r = norm(&v);
            let s = prox_norm(m, r, 1.0 / lip[j]);
            v.iter_mut()
                .for_each(|x| *x = if r > 0.0 { *x / r * s } else { 0.0 });
            for k in 0..t {
                let d = v[k] - w[j * t + k];
                if d != 0.0 {
                    for i in 0..n {
                        xw[i * t + k] += d * col[i];
                    }
                    w[j * t + k] = v[k];
                }
            }
        }
    }
    RefFit {
        w,
        epochs: None,
        kkt,
    }
}
