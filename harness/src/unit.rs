//! Scalars with awkward magnitudes and direct access to the penalties.
use crate::oracle::*;
use crate::problem::*;
use crate::rng::G;
use ndarray::{s, Array1, Array2, ArrayView1};
use sparseglm::penalties::block_separable::{BlockL1PlusL2, BlockMCP, MultiTaskPenalty, L21};
use sparseglm::penalties::separable::{L1PlusL2, Penalty, L05, L1, MCP};
use sparseglm::Float;

/// any magnitude within [10^-e, 10^e], often a round number, sometimes zero
pub fn magnitude(g: &mut G, e: f64) -> f64 {
    match g.weighted(&[8, 3, 2, 1]) {
        0 => g.log_range(1e-3, 1e3),
        1 => g.int(0, 6) as f64,
        2 => 10f64.powf(g.range(-e, e)),
        _ => g.int(1, 64) as f64 / 16.0,
    }
}
pub fn positive(g: &mut G, e: f64) -> f64 {
    loop {
        let v = magnitude(g, e);
        if v > 0.0 {
            return v;
        }
    }
}
/// a neighbour of v: itself, a few ulps away, or a small relative distance away
pub fn near(g: &mut G, v: f64) -> f64 {
    if v == 0.0 {
        return v;
    }
    match g.weighted(&[3, 2, 2, 3]) {
        0 => v,
        1 => f64::from_bits((v.to_bits() as i64 + g.int(0, 6) as i64 - 3).max(0) as u64),
        2 => v * (1.0 + g.sign() * 10f64.powf(g.range(-14.0, -2.0))),
        _ => v * g.range(0.2, 3.0),
    }
}
pub fn gen_penalty(g: &mut G, multi: bool, e: f64) -> Model {
    let pens: &[Pen] = if multi { &[Pen::L1, Pen::EN, Pen::MCP] } else { &[Pen::L1, Pen::EN, Pen::MCP, Pen::L05] };
    Model {
        pen: g.pick(pens),
        alpha: magnitude(g, e),
        ratio: match g.int(0, 5) {
            0 => 0.0,
            1 => 1.0,
            2 => 0.5,
            _ => g.unit(),
        },
        gamma: if g.bool(0.12) { f64::INFINITY } else { 1.0 + magnitude(g, e) },
        logistic: false,
        multi,
    }
}

pub fn prox<F: Float>(m: &Model, v: ArrayView1<F>, step: F) -> Vec<F> {
    let c = F::cast::<f64>;
    let (a, r, gm) = (c(m.alpha), c(m.ratio), c(m.gamma));
    if m.multi {
        match m.pen {
            Pen::L1 => MultiTaskPenalty::prox(&L21::new(a), v, step),
            Pen::EN => MultiTaskPenalty::prox(&BlockL1PlusL2::new(a, r), v, step),
            _ => MultiTaskPenalty::prox(&BlockMCP::new(a, gm), v, step),
        }
        .to_vec()
    } else {
        vec![match m.pen {
            Pen::L1 => L1::new(a).prox(v[0], step),
            Pen::EN => L1PlusL2::new(a, r).prox(v[0], step),
            Pen::MCP => MCP::new(a, gm).prox(v[0], step),
            Pen::L05 => L05::new(a).prox(v[0], step),
        }]
    }
}

/// penalty value of a p x t coefficient matrix; `kind` picks the memory layout of the view
pub fn value<F: Float>(m: &Model, w: &[F], t: usize, kind: usize) -> F {
    let c = F::cast::<f64>;
    let (a, r, gm) = (c(m.alpha), c(m.ratio), c(m.gamma));
    if m.multi {
        let b = mat(w, t, kind);
        let v = mat_view(&b, kind);
        match m.pen {
            Pen::L1 => MultiTaskPenalty::value(&L21::new(a), v),
            Pen::EN => BlockL1PlusL2::new(a, r).value(v),
            _ => BlockMCP::new(a, gm).value(v),
        }
    } else {
        let b = vecl(w, kind);
        let v = vec_view(&b, kind);
        match m.pen {
            Pen::L1 => L1::new(a).value(v),
            Pen::EN => L1PlusL2::new(a, r).value(v),
            Pen::MCP => MCP::new(a, gm).value(v),
            Pen::L05 => L05::new(a).value(v),
        }
    }
}

pub fn subdiff<F: Float>(m: &Model, w: &[F], g: &[F], ws: &[usize], t: usize, kind: usize) -> (Vec<F>, F) {
    let c = F::cast::<f64>;
    let (a, r, gm) = (c(m.alpha), c(m.ratio), c(m.gamma));
    let ws = Array1::from(ws.to_vec());
    let (d, mx) = if m.multi {
        let (b, h) = (mat(w, t, kind), mat(g, t, kind / 3));
        let (v, u) = (mat_view(&b, kind), mat_view(&h, kind / 3));
        match m.pen {
            Pen::L1 => MultiTaskPenalty::subdiff_distance(&L21::new(a), v, u, ws.view()),
            Pen::EN => BlockL1PlusL2::new(a, r).subdiff_distance(v, u, ws.view()),
            _ => BlockMCP::new(a, gm).subdiff_distance(v, u, ws.view()),
        }
    } else {
        let (b, h) = (vecl(w, kind), vecl(g, kind / 3));
        let (v, u) = (vec_view(&b, kind), vec_view(&h, kind / 3));
        match m.pen {
            Pen::L1 => L1::new(a).subdiff_distance(v, u, ws.view()),
            Pen::EN => L1PlusL2::new(a, r).subdiff_distance(v, u, ws.view()),
            Pen::MCP => MCP::new(a, gm).subdiff_distance(v, u, ws.view()),
            Pen::L05 => L05::new(a).subdiff_distance(v, u, ws.view()),
        }
    };
    (d.to_vec(), mx)
}

/// storage of a vector in layout kind % 3 (plain, strided, reversed)
pub fn vecl<F: Float>(v: &[F], kind: usize) -> Array1<F> {
    match kind % 3 {
        0 => Array1::from(v.to_vec()),
        1 => Array1::from_shape_fn(2 * v.len(), |i| if i % 2 == 0 { v[i / 2] } else { F::cast(777.0) }),
        _ => Array1::from(v.iter().rev().cloned().collect::<Vec<_>>()),
    }
}
pub fn vec_view<F: Float>(a: &Array1<F>, kind: usize) -> ArrayView1<'_, F> {
    match kind % 3 {
        0 => a.view(),
        1 => a.slice(s![..;2]),
        _ => a.slice(s![..;-1]),
    }
}
pub fn mat<F: Float>(v: &[F], t: usize, kind: usize) -> Array2<F> {
    let p = v.len() / t;
    match kind % 3 {
        0 => Array2::from_shape_vec((p, t), v.to_vec()).unwrap(),
        1 => Array2::from_shape_fn((t, p), |(k, j)| v[j * t + k]),
        _ => Array2::from_shape_fn((p, t), |(j, k)| v[(p - 1 - j) * t + (t - 1 - k)]),
    }
}
pub fn mat_view<F: Float>(a: &Array2<F>, kind: usize) -> ndarray::ArrayView2<'_, F> {
    match kind % 3 {
        0 => a.view(),
        1 => a.t(),
        _ => a.slice(s![..;-1, ..;-1]),
    }
}

pub fn shrink_penalty(m: &Model) -> Vec<Model> {
    let mut v = shrink_model(m);
    if m.alpha != 1.0 {
        v.push(Model { alpha: 1.0, ..*m });
    }
    if m.gamma.is_finite() && m.gamma != 3.0 {
        v.push(Model { gamma: 3.0, ..*m });
    }
    if m.ratio != 0.5 {
        v.push(Model { ratio: 0.5, ..*m });
    }
    v
}
pub fn shrink_num(v: f64) -> Vec<f64> {
    let mut o = vec![];
    for c in [0.0, 1.0, -1.0, v.round(), (v * 10.0).round() / 10.0, (v * 1e3).round() / 1e3] {
        if c != v && c.is_finite() && !(c == 0.0 && v == 0.0) && !o.contains(&c) {
            o.push(c);
        }
    }
    o
}
/// total amount subtracted at the breakpoints of one row of norm r (for rounding bounds)
pub fn breakpoints(m: &Model, step: f64) -> Vec<f64> {
    match m.pen {
        Pen::L1 => vec![m.alpha * step],
        Pen::EN => vec![m.alpha * m.ratio * step],
        Pen::MCP => vec![m.alpha * step, if m.gamma.is_finite() { m.alpha * m.gamma } else { m.alpha * step }],
        Pen::L05 => vec![1.5 * (m.alpha * step).powf(2.0 / 3.0)],
    }
}
pub fn norm_of(v: &[f64]) -> f64 {
    norm(v)
}
