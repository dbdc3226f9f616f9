//! Problems, models, solver knobs and storage layouts: the structured inputs of most checks.
use crate::dict::{near_float, near_int};
use crate::rng::G;
use serde::{Deserialize, Serialize};

/// f64 that may be infinite (JSON has no infinity).
pub mod inf {
    use serde::{Deserialize, Deserializer, Serialize, Serializer};
    pub fn serialize<S: Serializer>(v: &f64, s: S) -> Result<S::Ok, S::Error> {
        if v.is_finite() {
            v.serialize(s)
        } else {
            v.to_string().serialize(s)
        }
    }
    #[derive(Deserialize)]
    #[serde(untagged)]
    enum E {
        N(f64),
        S(String),
    }
    pub fn deserialize<'d, D: Deserializer<'d>>(d: D) -> Result<f64, D::Error> {
        Ok(match E::deserialize(d)? {
            E::N(x) => x,
            E::S(s) => s.parse().map_err(serde::de::Error::custom)?,
        })
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Problem {
    pub n: usize,
    pub p: usize,
    pub t: usize,
    /// row major n x p
    pub x: Vec<f64>,
    /// row major n x t
    pub y: Vec<f64>,
}

impl Problem {
    pub fn xij(&self, i: usize, j: usize) -> f64 {
        self.x[i * self.p + j]
    }
    pub fn yit(&self, i: usize, t: usize) -> f64 {
        self.y[i * self.t + t]
    }
    /// squared column norm / n
    pub fn lip(&self, j: usize) -> f64 {
        let mut s = 0.0;
        for i in 0..self.n {
            s += self.xij(i, j) * self.xij(i, j);
        }
        s / self.n as f64
    }
    pub fn lips(&self) -> Vec<f64> {
        (0..self.p).map(|j| self.lip(j)).collect()
    }
    /// max over features of the row norm of X'Y / n, in plain loops
    pub fn alpha_max(&self) -> f64 {
        let mut m: f64 = 0.0;
        for j in 0..self.p {
            let mut s = 0.0;
            for t in 0..self.t {
                let mut d = 0.0;
                for i in 0..self.n {
                    d += self.xij(i, j) * self.yit(i, t);
                }
                s += d * d;
            }
            m = m.max(s.sqrt());
        }
        m / self.n as f64
    }
    /// natural magnitude of a gradient entry
    pub fn scale(&self) -> f64 {
        let ny = self.y.iter().map(|v| v * v).sum::<f64>().sqrt();
        let mx = self.lips().into_iter().fold(0.0f64, f64::max).sqrt() * (self.n as f64).sqrt();
        mx * ny / self.n as f64
    }
    /// X W for row-major p x t W
    pub fn xw(&self, w: &[f64]) -> Vec<f64> {
        let mut out = vec![0.0; self.n * self.t];
        for i in 0..self.n {
            for j in 0..self.p {
                let v = self.x[i * self.p + j];
                if v != 0.0 {
                    for t in 0..self.t {
                        out[i * self.t + t] += v * w[j * self.t + t];
                    }
                }
            }
        }
        out
    }
    pub fn keep_rows(&self, rows: &[usize]) -> Problem {
        let mut q = Problem {
            n: rows.len(),
            p: self.p,
            t: self.t,
            x: vec![],
            y: vec![],
        };
        for &i in rows {
            q.x.extend_from_slice(&self.x[i * self.p..(i + 1) * self.p]);
            q.y.extend_from_slice(&self.y[i * self.t..(i + 1) * self.t]);
        }
        q
    }
    pub fn keep_cols(&self, cols: &[usize]) -> Problem {
        let mut q = self.clone();
        q.p = cols.len();
        q.x = Vec::with_capacity(self.n * cols.len());
        for i in 0..self.n {
            for &j in cols {
                q.x.push(self.xij(i, j));
            }
        }
        q
    }
    pub fn keep_tasks(&self, ts: &[usize]) -> Problem {
        let mut q = self.clone();
        q.t = ts.len();
        q.y = Vec::with_capacity(self.n * ts.len());
        for i in 0..self.n {
            for &t in ts {
                q.y.push(self.yit(i, t));
            }
        }
        q
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Pen {
    L1,
    EN,
    MCP,
    L05,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Model {
    pub pen: Pen,
    pub alpha: f64,
    /// l1_ratio (EN only)
    pub ratio: f64,
    /// MCP only
    #[serde(with = "inf")]
    pub gamma: f64,
    pub logistic: bool,
    pub multi: bool,
}

impl Model {
    pub fn nonconvex(&self) -> bool {
        self.pen == Pen::L05 || (self.pen == Pen::MCP && self.gamma.is_finite())
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Knobs {
    pub ws: usize,
    pub k: usize,
    pub accel: bool,
    pub max_iter: usize,
    pub max_epochs: usize,
    pub tol: f64,
    #[serde(default)]
    pub verbose: bool,
}

/// Memory representation of a dataset.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub struct Layout {
    pub x: XKind,
    pub y: YKind,
    /// picks shuffles, positions of explicit zeros, ...
    pub seed: u64,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum XKind {
    OwnedC,
    OwnedF,
    ViewC,
    ViewF,
    /// every second row and third column of a larger array
    Strided,
    /// negative strides on both axes
    Reversed,
    /// interior block of a larger array
    Inner,
    /// any order, steps and ownership: see `cut`
    Cut(u8),
    Csc,
    /// rows inside each column in random order
    CscShuffled,
    /// some structural zeros stored explicitly
    CscZeros,
    /// data/indices views are strided parts of larger arrays with unused tail
    CscStrided,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum YKind {
    OwnedC,
    OwnedF,
    View,
    Strided,
    Reversed,
    Cut(u8),
}
/// (column major, owned, row step, column step) of a `Cut`
pub fn cut(code: u8) -> (bool, bool, isize, isize) {
    const STEPS: [isize; 6] = [-1, 1, 2, -2, 3, -3];
    let c = code as usize;
    (c & 1 == 1, c & 2 == 2, STEPS[(c >> 2) % 6], STEPS[((c >> 2) / 6) % 6])
}
pub const CUTS: usize = 144;
pub const DENSE: [XKind; 8] = [
    XKind::OwnedC,
    XKind::OwnedF,
    XKind::ViewC,
    XKind::ViewF,
    XKind::Strided,
    XKind::Reversed,
    XKind::Inner,
    XKind::Cut(0),
];
pub const SPARSE: [XKind; 4] = [
    XKind::Csc,
    XKind::CscShuffled,
    XKind::CscZeros,
    XKind::CscStrided,
];
pub const YKINDS: [YKind; 6] = [
    YKind::OwnedC,
    YKind::OwnedF,
    YKind::View,
    YKind::Strided,
    YKind::Reversed,
    YKind::Cut(0),
];
impl XKind {
    pub fn sparse(self) -> bool {
        SPARSE.contains(&self)
    }
}
impl Layout {
    pub fn plain() -> Layout {
        Layout {
            x: XKind::OwnedC,
            y: YKind::OwnedC,
            seed: 0,
        }
    }
    pub fn gen(g: &mut G) -> Layout {
        let x = if g.bool(0.45) {
            g.pick(&SPARSE)
        } else {
            g.pick(&DENSE)
        };
        let mut code = || g.int(0, CUTS - 1) as u8;
        let x = if x == XKind::Cut(0) { XKind::Cut(code()) } else { x };
        let y = match g.pick(&YKINDS) {
            YKind::Cut(_) => YKind::Cut(g.int(0, CUTS - 1) as u8),
            y => y,
        };
        Layout {
            x,
            y,
            seed: g.u64() % 1000,
        }
    }
    pub fn shrink(&self) -> Vec<Layout> {
        let mut v = vec![];
        if *self != Layout::plain() {
            v.push(Layout::plain());
        }
        if self.x.sparse() && self.x != XKind::Csc {
            v.push(Layout {
                x: XKind::Csc,
                ..*self
            });
        }
        if let XKind::Cut(k) = self.x {
            for q in [k & !1, k & !2, (k & 3) + (1 << 2) + (k >> 2) / 6 * 24, (k & 3) + (k >> 2) % 6 * 4 + 24, k & 3] {
                if q < k {
                    v.push(Layout { x: XKind::Cut(q), ..*self });
                }
            }
        }
        if self.y != YKind::OwnedC {
            v.push(Layout {
                y: YKind::OwnedC,
                ..*self
            });
        }
        if self.seed != 0 {
            v.push(Layout { seed: 0, ..*self });
        }
        v
    }
}

/// What shape of problem to draw.
#[derive(Clone, Copy)]
pub struct Shape {
    pub max_n: usize,
    pub max_p: usize,
    pub max_t: usize,
    pub min_n: usize,
    pub min_p: usize,
    /// 0 = single-task regression, 1 = multi, 2 = labels in {-1, 1}
    pub target: u8,
    /// allow badly scaled columns and entries
    pub scaling: bool,
    /// share of problems beyond the maxima
    pub large: f64,
    /// weights among them: more samples, more features, both, thousands of samples, of features, many tasks
    pub tail: [u32; 6],
}
impl Shape {
    pub fn single() -> Shape {
        Shape {
            max_n: 60,
            max_p: 120,
            max_t: 1,
            min_n: 1,
            min_p: 1,
            target: 0,
            scaling: true,
            large: 0.006,
            tail: [2, 2, 2, 1, 1, 3],
        }
    }
    pub fn multi() -> Shape {
        Shape {
            max_n: 40,
            max_p: 60,
            max_t: 10,
            target: 1,
            ..Shape::single()
        }
    }
    pub fn labels() -> Shape {
        Shape {
            max_n: 50,
            max_p: 60,
            target: 2,
            ..Shape::single()
        }
    }
}

fn pick_dim(g: &mut G, lo: usize, hi: usize) -> usize {
    if lo >= hi {
        return lo;
    }
    match g.weighted(&[55, 35, 10]) {
        0 => g.log_int(lo, hi.min(12).max(lo)),
        1 => g.log_int(lo, hi.min(45).max(lo)),
        _ => g.log_int(lo.max(hi / 4).max(1), hi),
    }
}

pub fn gen_problem(g: &mut G, s: Shape) -> Problem {
    let (mut n, mut p) = (pick_dim(g, s.min_n, s.max_n), pick_dim(g, s.min_p, s.max_p));
    // now and then a problem far outside the usual sizes
    let mut many = 0;
    if s.large > 0.0 && g.bool(s.large) {
        let mut tail = s.tail;
        if s.max_t == 1 {
            (tail[0], tail[5]) = (tail[0] + 1, 0);
        }
        match g.weighted(&tail) {
            0 => n = g.log_int(s.max_n, 8 * s.max_n),
            1 => p = g.log_int(s.max_p, 4 * s.max_p),
            2 => {
                n = g.log_int(s.max_n, 3 * s.max_n);
                p = g.log_int(s.max_p, 2 * s.max_p)
            }
            // long, wide or many-task problems, small in the other directions
            3 => {
                n = g.log_int(500, 6000);
                p = p.min(8)
            }
            4 => {
                p = g.log_int(400, 3000);
                n = n.min(8)
            }
            _ => {
                many = g.log_int(s.max_t, 100);
                n = n.min(12);
                p = p.min(12)
            }
        }
    }
    let mut t = if many > 0 {
        many
    } else if s.max_t > 1 {
        pick_dim(g, 1, s.max_t)
    } else {
        1
    };
    // or one of the sizes the sources mention
    if s.large > 0.0 && g.bool(0.02) {
        match g.int(0, if s.max_t > 1 { 2 } else { 1 }) {
            0 => n = near_int(g, s.min_n, 8 * s.max_n).unwrap_or(n),
            1 => p = near_int(g, s.min_p, 4 * s.max_p).unwrap_or(p),
            _ => t = near_int(g, 1, 64).unwrap_or(t),
        }
    }
    let x = gen_x(g, n, p, s.scaling);
    let y = gen_y(g, n, p, t, &x, s.target);
    Problem { n, p, t, x, y }
}

pub fn gen_x(g: &mut G, n: usize, p: usize, scaling: bool) -> Vec<f64> {
    let mut x = vec![0.0; n * p];
    match g.weighted(&[5, 4, 3, 4, 1, 2, 1]) {
        0 => x.iter_mut().for_each(|v| *v = g.normal()),
        1 => {
            // AR(1)-correlated columns
            let c = g.pick(&[0.3, 0.6, 0.9, 0.99]);
            let s = (1.0f64 - c * c).sqrt();
            for i in 0..n {
                let mut u = g.normal();
                for j in 0..p {
                    x[i * p + j] = u;
                    u = c * u + s * g.normal();
                }
            }
        }
        2 => x
            .iter_mut()
            .for_each(|v| *v = g.int(0, 6) as f64 - 3.0),
        3 => {
            // sparse, with empty columns
            let d = g.pick(&[0.05, 0.2, 0.5]);
            x.iter_mut()
                .for_each(|v| *v = if g.bool(d) { g.normal() } else { 0.0 });
        }
        4 => {
            // one-hot rows
            for i in 0..n {
                let j = g.int(0, p - 1);
                x[i * p + j] = 1.0;
            }
        }
        5 => x
            .iter_mut()
            .for_each(|v| *v = if g.bool(0.5) { 1.0 } else { 0.0 }),
        _ => {
            // low rank
            let r = g.int(1, 3);
            let a: Vec<f64> = (0..n * r).map(|_| g.normal()).collect();
            let b: Vec<f64> = (0..r * p).map(|_| g.normal()).collect();
            for i in 0..n {
                for j in 0..p {
                    for k in 0..r {
                        x[i * p + j] += a[i * r + k] * b[k * p + j];
                    }
                }
            }
        }
    }
    // degenerate columns
    if p > 1 && g.bool(0.25) {
        for _ in 0..g.int(1, 1 + p / 8) {
            let j = g.int(0, p - 1);
            let k = g.int(0, p - 1);
            match g.int(0, 4) {
                0 => (0..n).for_each(|i| x[i * p + j] = 0.0),
                1 => (0..n).for_each(|i| x[i * p + j] = x[i * p + k]),
                2 => (0..n).for_each(|i| x[i * p + j] = -x[i * p + k]),
                3 => (0..n).for_each(|i| x[i * p + j] = 1.0),
                _ => {
                    // a single non-zero entry
                    let i0 = g.int(0, n - 1);
                    (0..n).for_each(|i| if i != i0 { x[i * p + j] = 0.0 });
                }
            }
        }
    }
    if scaling {
        if g.bool(0.2) {
            for j in 0..p {
                let c = g.pick(&[0.01, 0.1, 1.0, 3.0, 10.0]);
                (0..n).for_each(|i| x[i * p + j] *= c);
            }
        }
        if g.bool(0.1) {
            let c = g.pick(&[1e-5, 1e-3, 1e3, 1e5]);
            x.iter_mut().for_each(|v| *v *= c);
        }
    }
    if g.bool(0.1) {
        // all columns normalised to unit Lipschitz constant
        for j in 0..p {
            let s: f64 = (0..n).map(|i| x[i * p + j] * x[i * p + j]).sum::<f64>();
            if s > 0.0 {
                let c = (n as f64 / s).sqrt();
                (0..n).for_each(|i| x[i * p + j] *= c);
            }
        }
    }
    x
}

pub fn gen_y(g: &mut G, n: usize, p: usize, t: usize, x: &[f64], target: u8) -> Vec<f64> {
    let mut y = vec![0.0; n * t];
    let planted = |g: &mut G, y: &mut Vec<f64>| {
        let nnz = g.int(1, p.min(8));
        for _ in 0..nnz {
            let j = g.int(0, p - 1);
            for k in 0..t {
                let c = g.normal() * g.pick(&[0.3, 1.0, 3.0]);
                for i in 0..n {
                    y[i * t + k] += c * x[i * p + j];
                }
            }
        }
    };
    if target == 2 {
        match g.weighted(&[3, 4, 1]) {
            0 => y.iter_mut().for_each(|v| *v = g.sign()),
            1 => {
                planted(g, &mut y);
                let noise = g.pick(&[0.0, 0.0, 0.3, 1.0]);
                for v in y.iter_mut() {
                    let z = *v + noise * g.normal();
                    *v = if z > 0.0 { 1.0 } else { -1.0 };
                }
            }
            _ => {
                let s = g.sign();
                y.iter_mut().for_each(|v| *v = s)
            }
        }
        return y;
    }
    match g.weighted(&[6, 3, 2, 1, 2, 1]) {
        0 => {
            planted(g, &mut y);
            let ny = (y.iter().map(|v| v * v).sum::<f64>() / (n * t) as f64).sqrt();
            let s = g.pick(&[0.01, 0.1, 0.5, 1.0]) * if ny > 0.0 { ny } else { 1.0 };
            y.iter_mut().for_each(|v| *v += s * g.normal());
        }
        1 => y.iter_mut().for_each(|v| *v = g.normal()),
        2 => planted(g, &mut y),
        3 => {
            let c = g.normal();
            y.iter_mut().for_each(|v| *v = c)
        }
        4 => y
            .iter_mut()
            .for_each(|v| *v = g.int(0, 10) as f64 - 5.0),
        _ => {}
    }
    if t > 1 && g.bool(0.15) {
        // zero or duplicated task
        let k = g.int(0, t - 1);
        let l = g.int(0, t - 1);
        let z = g.bool(0.5);
        for i in 0..n {
            y[i * t + k] = if z { 0.0 } else { y[i * t + l] };
        }
    }
    if g.bool(0.08) {
        let c = g.pick(&[1e-4, 1e4]);
        y.iter_mut().for_each(|v| *v *= c);
    }
    y
}

/// The value of alpha (before division by l1_ratio) at which the null model becomes optimal.
pub fn null_alpha(pb: &Problem, logistic: bool) -> f64 {
    let a = pb.alpha_max();
    if logistic {
        a / 2.0
    } else {
        a
    }
}

pub fn gen_model(g: &mut G, pb: &Problem, pens: &[Pen], logistic: bool, multi: bool) -> Model {
    let pen = g.pick(pens);
    let amax = null_alpha(pb, logistic);
    let ratio = match g.weighted(&[10, 10, 60, 10, 2, 2, 1]) {
        0 => 0.0,
        1 => 1.0,
        2 => g.range(0.02, 0.98),
        4 => g.log_range(1e-6, 0.02),
        5 => 1.0 - g.log_range(1e-6, 0.02),
        6 => near_float(g, 1e-9, 1.0).unwrap_or(0.5),
        _ => 0.5,
    };
    let f = match g.weighted(&[20, 8, 4, 2, 2, 1]) {
        0 => g.log_range(0.005, 0.9),
        1 => g.range(0.3, 0.99),
        2 => g.range(1.01, 2.0),
        3 => 1.0,
        5 => g.log_range(1e-6, 0.005),
        _ => 0.0,
    };
    let base = if amax > 0.0 { amax } else { 1.0 };
    let mut alpha = f * base;
    if pen == Pen::EN && ratio > 0.05 {
        alpha /= ratio;
    }
    let lmin = pb
        .lips()
        .into_iter()
        .filter(|&l| l > 0.0)
        .fold(f64::INFINITY, f64::min);
    let lmin = if lmin.is_finite() { lmin } else { 1.0 };
    let lmin = if logistic { lmin / 4.0 } else { lmin };
    // domain of MCP: gamma * L_j > 1 for every non-zero column, and gamma >= 1
    let gmin = (1.0 / lmin).max(1.0);
    if g.bool(0.01) {
        alpha = near_float(g, 1e-6 * base, 2.0 * base).unwrap_or(alpha);
    }
    let gamma = match g.weighted(&[60, 10, 10, 3, 1]) {
        0 => gmin * g.log_range(1.2, 20.0),
        1 => f64::INFINITY,
        3 => gmin * g.log_range(20.0, 1e6),
        4 => near_float(g, 1.2 * gmin, 1e9).unwrap_or(f64::INFINITY),
        _ => gmin * 1.25,
    };
    Model {
        pen,
        alpha,
        ratio,
        gamma,
        logistic,
        multi,
    }
}

pub fn gen_knobs(g: &mut G, pb: &Problem, logistic: bool) -> Knobs {
    let sc = pb.scale();
    let sc = if sc > 0.0 { sc } else { 1.0 };
    let _ = logistic;
    let ws = match g.weighted(&[8, 8, 8, 12, 8, 4, 8, 1]) {
        0 => 1,
        1 => 2,
        2 => 5,
        3 => 10,
        4 => pb.p,
        5 => pb.p + g.int(1, 20),
        7 => near_int(g, 1, pb.p + 20).unwrap_or(10),
        _ => g.int(1, pb.p),
    };
    Knobs {
        ws,
        k: match g.weighted(&[4, 1, 4, 2]) {
            0 => 5,
            1 => 1,
            2 => g.int(2, 8),
            _ => g.int(8, 14),
        },
        accel: g.bool(0.75),
        max_iter: 200,
        max_epochs: 5_000,
        tol: sc * g.log_range(1e-8, 1e-4),
        verbose: false,
    }
}

pub fn shrink_problem(pb: &Problem) -> Vec<Problem> {
    let mut v = vec![];
    let halves = |n: usize| -> Vec<Vec<usize>> {
        let mut o = vec![];
        if n > 1 {
            o.push((0..n / 2).collect());
            o.push((n / 2..n).collect());
        }
        if n > 2 && n <= 24 {
            for d in 0..n {
                o.push((0..n).filter(|&i| i != d).collect());
            }
        } else if n > 24 {
            for b in 0..8 {
                let (lo, hi) = (b * n / 8, (b + 1) * n / 8);
                o.push((0..n).filter(|&i| i < lo || i >= hi).collect());
            }
        }
        o
    };
    for h in halves(pb.p) {
        v.push(pb.keep_cols(&h));
    }
    for h in halves(pb.n) {
        v.push(pb.keep_rows(&h));
    }
    for h in halves(pb.t) {
        v.push(pb.keep_tasks(&h));
    }
    // simpler values
    let round = |xs: &[f64], q: f64| -> Vec<f64> { xs.iter().map(|x| (x * q).round() / q).collect() };
    for q in [1.0, 10.0, 1000.0] {
        let x = round(&pb.x, q);
        if x != pb.x {
            v.push(Problem { x, ..pb.clone() });
        }
        let y = round(&pb.y, q);
        if y != pb.y && pb.y.iter().any(|a| a.abs() != 1.0) {
            v.push(Problem { y, ..pb.clone() });
        }
    }
    if pb.n * pb.p <= 40 {
        for i in 0..pb.x.len() {
            if pb.x[i] != 0.0 {
                let mut q = pb.clone();
                q.x[i] = 0.0;
                v.push(q);
                if pb.x[i] != 1.0 {
                    let mut q = pb.clone();
                    q.x[i] = 1.0;
                    v.push(q);
                }
            }
        }
    }
    v
}

pub fn shrink_knobs(k: &Knobs) -> Vec<Knobs> {
    let mut v = vec![];
    if k.accel {
        v.push(Knobs { accel: false, ..*k });
    }
    for ws in [1, 10] {
        if k.ws > ws {
            v.push(Knobs { ws, ..*k });
        }
    }
    for kk in [1, 2, 5] {
        if k.k > kk {
            v.push(Knobs { k: kk, ..*k });
        }
    }
    v
}

pub fn shrink_model(m: &Model) -> Vec<Model> {
    let mut v = vec![];
    let r = |x: f64, d: f64| (x * d).round() / d;
    for d in [1.0, 10.0, 100.0] {
        let a = r(m.alpha, d);
        if a != m.alpha && a >= 0.0 {
            v.push(Model { alpha: a, ..*m });
        }
        if m.pen == Pen::EN {
            let a = r(m.ratio, d);
            if a != m.ratio {
                v.push(Model { ratio: a, ..*m });
            }
        }
        if m.pen == Pen::MCP && m.gamma.is_finite() {
            let a = (m.gamma * d).ceil() / d;
            if a != m.gamma {
                v.push(Model { gamma: a, ..*m });
            }
        }
    }
    v
}
