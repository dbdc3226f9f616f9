//! Problems with a provably unique solution and the distance two tolerance-accurate solutions can have.
use crate::oracle::*;
use crate::problem::*;

/// smallest eigenvalue of a symmetric matrix (row-major), by cyclic Jacobi rotations
pub fn min_eig(mut a: Vec<f64>, n: usize) -> f64 {
    for _ in 0..60 {
        let mut off = 0.0;
        let mut diag = 0.0f64;
        for i in 0..n {
            diag = diag.max(a[i * n + i].abs());
            for j in 0..i {
                off += a[i * n + j] * a[i * n + j];
            }
        }
        if off.sqrt() <= 1e-15 * diag {
            break;
        }
        for p in 0..n {
            for q in p + 1..n {
                let apq = a[p * n + q];
                if apq == 0.0 {
                    continue;
                }
                let th = (a[q * n + q] - a[p * n + p]) / (2.0 * apq);
                let t = th.signum() / (th.abs() + (th * th + 1.0).sqrt());
                let t = if th == 0.0 { 1.0 } else { t };
                let c = 1.0 / (t * t + 1.0).sqrt();
                let s = t * c;
                for k in 0..n {
                    let (x, y) = (a[k * n + p], a[k * n + q]);
                    a[k * n + p] = c * x - s * y;
                    a[k * n + q] = s * x + c * y;
                }
                for k in 0..n {
                    let (x, y) = (a[p * n + k], a[q * n + k]);
                    a[p * n + k] = c * x - s * y;
                    a[q * n + k] = s * x + c * y;
                }
            }
        }
    }
    (0..n).map(|i| a[i * n + i]).fold(f64::INFINITY, f64::min)
}

/// X'X / n restricted to the given columns
pub fn gram(pb: &Problem, cols: &[usize]) -> Vec<f64> {
    let k = cols.len();
    let mut g = vec![0.0; k * k];
    for i in 0..pb.n {
        for a in 0..k {
            let v = pb.xij(i, cols[a]);
            if v != 0.0 {
                for b in 0..k {
                    g[a * k + b] += v * pb.xij(i, cols[b]);
                }
            }
        }
    }
    g.iter_mut().for_each(|v| *v /= pb.n as f64);
    g
}

/// Strong convexity constant of the whole objective over the features with a non-zero column
/// (zero columns keep a zero coefficient by themselves); None when it is not positive.
pub fn strong_convexity(pb: &Problem, m: &Model) -> Option<f64> {
    let cols: Vec<usize> = (0..pb.p).filter(|&j| pb.lip(j) > 0.0).collect();
    if cols.is_empty() {
        return None;
    }
    let lmax = pb.lips().into_iter().fold(0.0, f64::max) * cols.len() as f64;
    let mut mu = 0.0;
    if !m.logistic && cols.len() <= pb.n && cols.len() <= 40 {
        let k = cols.len();
        let e = min_eig(gram(pb, &cols), k) - 1e-13 * lmax;
        mu += e.max(0.0);
    }
    if m.pen == Pen::EN {
        mu += m.alpha * (1.0 - m.ratio);
    }
    if m.pen == Pen::MCP && m.gamma.is_finite() {
        mu -= 1.0 / m.gamma;
    }
    if m.pen == Pen::L05 {
        return None;
    }
    (mu > 1e-7 * lmax && mu > 0.0).then_some(mu)
}

/// Largest Euclidean distance between two points whose optimality violations are within `tol`
/// plus rounding, for a strongly convex objective.
pub fn distance_bound(pb: &Problem, m: &Model, mu: f64, tol: f64, w1: &[f64], w2: &[f64]) -> f64 {
    let sl = slack(pb, m, w1, f64::EPSILON) + slack(pb, m, w2, f64::EPSILON);
    ((2.0 * tol * (1.0 + 1e-6) + sl) * (pb.p as f64).sqrt()) / mu
}

pub fn dist(a: &[f64], b: &[f64]) -> f64 {
    a.iter()
        .zip(b)
        .map(|(x, y)| (x - y) * (x - y))
        .sum::<f64>()
        .sqrt()
}

/// solves A x = b for a symmetric positive definite row-major A, several right-hand sides (n x t)
pub fn spd_solve(mut a: Vec<f64>, n: usize, mut b: Vec<f64>, t: usize) -> Vec<f64> {
    // Cholesky
    for j in 0..n {
        for k in 0..j {
            let v = a[j * n + k];
            for i in j..n {
                a[i * n + j] -= a[i * n + k] * v;
            }
        }
        let d = a[j * n + j].sqrt();
        for i in j..n {
            a[i * n + j] /= d;
        }
    }
    for c in 0..t {
        for i in 0..n {
            let mut s = b[i * t + c];
            for k in 0..i {
                s -= a[i * n + k] * b[k * t + c];
            }
            b[i * t + c] = s / a[i * n + i];
        }
        for i in (0..n).rev() {
            let mut s = b[i * t + c];
            for k in i + 1..n {
                s -= a[k * n + i] * b[k * t + c];
            }
            b[i * t + c] = s / a[i * n + i];
        }
    }
    b
}

/// How two coefficient vectors were found to agree.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Agree {
    /// the solution is unique and both are within the distance the tolerance allows
    Unique,
    /// convex: same objective (and predictions, for least squares) within the tolerance
    Convex,
    /// nothing is demanded
    Open,
}

/// Did a fit legitimately run out of its budget at `w`? True when its violation exceeds the tolerance and
/// plain descent from there does not converge within twice the reference budget either.
pub fn exhausted(pb: &Problem, m: &Model, tol: f64, w: &[f64]) -> bool {
    w.iter().all(|v| v.is_finite())
        && max_excess(pb, m, w, f64::EPSILON) > tol
        && ref_cd_from(pb, m, tol * 0.5, 2 * crate::case::REF_EPOCHS, w.to_vec()).epochs.is_none()
}

/// Both `a` and `b` are claimed to satisfy the optimality conditions of one problem within `tol`.
pub fn compare(pb: &Problem, m: &Model, tol: f64, a: &[f64], b: &[f64]) -> Result<Agree, String> {
    let r = compare_converged(pb, m, tol, a, b);
    if r.is_err() && a.len() == b.len() && (exhausted(pb, m, tol, a) || exhausted(pb, m, tol, b)) {
        return Ok(Agree::Open);
    }
    r
}
fn compare_converged(pb: &Problem, m: &Model, tol: f64, a: &[f64], b: &[f64]) -> Result<Agree, String> {
    if a.len() != b.len() {
        return Err(format!("{} coefficients against {}", a.len(), b.len()));
    }
    if let Some(v) = a.iter().chain(b).find(|v| !v.is_finite()) {
        return Err(format!("non-finite coefficient {}", v));
    }
    let d: Vec<f64> = a.iter().zip(b).map(|(x, y)| x - y).collect();
    let sl = slack(pb, m, a, f64::EPSILON) + slack(pb, m, b, f64::EPSILON);
    let mu = strong_convexity(pb, m);
    if let Some(mu) = mu {
        let bound = distance_bound(pb, m, mu, tol, a, b);
        let wn = norm(a).max(norm(b));
        if !(norm(&d) <= bound + 1e-14 * wn) {
            return Err(format!(
                "solutions differ by {:e}, the tolerance allows {:e} (strong convexity {:e})",
                norm(&d),
                bound,
                mu
            ));
        }
    }
    let convex = !m.nonconvex();
    if convex {
        let d1: f64 = d.chunks(pb.t).map(norm).sum();
        let v = 2.0 * tol * (1.0 + 1e-6) + sl;
        if !m.logistic {
            let xd = norm(&pb.xw(&d));
            let mut lhs = xd * xd / pb.n as f64;
            if m.pen == Pen::EN {
                lhs += m.alpha * (1.0 - m.ratio) * norm(&d) * norm(&d);
            }
            if !(lhs <= v * d1 * (1.0 + 1e-9)) {
                return Err(format!(
                    "the tolerance allows the solutions to differ by {:e} in curvature, they do by {:e}",
                    v * d1, lhs
                ));
            }
        }
        let (oa, ob) = (objective(pb, m, a), objective(pb, m, b));
        let o0 = fit_value(pb, m.logistic, &vec![0.0; pb.n * pb.t]);
        if !((oa - ob).abs() <= v * d1 + 1e-12 * (oa.abs() + ob.abs() + o0)) {
            return Err(format!("objectives {:e} and {:e}", oa, ob));
        }
    }
    Ok(match (mu.is_some(), convex) {
        (true, _) => Agree::Unique,
        (_, true) => Agree::Convex,
        _ => Agree::Open,
    })
}

/// Does plain coordinate descent converge quickly on this problem (so that the fit has to)?
pub fn easy(pb: &Problem, m: &Model, tol: f64) -> bool {
    ref_cd(pb, m, tol * 0.5, crate::case::REF_EPOCHS).epochs.is_some()
}
