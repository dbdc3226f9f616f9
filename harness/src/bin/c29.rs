use harness::prelude::*;
use ndarray::prelude::*;
use sparseglm::utils::test_helpers::*;
use sparseglm::Float;

/// Comparison and data helpers.
struct C29;
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Case {
    /// two arrays (r x c; c = 0: vectors of length r) and a precision; entry differences in units of it
    Close { r: usize, c: usize, r2: usize, c2: usize, f32: bool, delta: f64, x: Vec<f64>, d: Vec<f64>, odd: Option<(usize, u8)>, lay: (bool, bool) },
    Data { n: usize, p: usize, t: usize },
}

fn quietly(f: impl FnOnce()) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_ok()
}
fn odd_value<F: Float>(k: u8) -> (F, F) {
    let (n, i, z) = (<F as num::Float>::nan(), <F as num::Float>::infinity(), F::zero());
    match k {
        0 => (n, z),
        1 => (z, n),
        2 => (n, n),
        3 => (i, z),
        4 => (z, i),
        5 => (i, i),
        6 => (i, -i),
        _ => (-i, -i),
    }
}
mod num {
    pub use ::num_traits::Float;
}

fn close<F: Float + num::Float + approx::AbsDiffEq<Epsilon = F>>(c: &Case) -> Outcome {
    let Case::Close { r, c: q, r2, c2, delta, x, d, odd, lay, .. } = c else { unreachable!() };
    let vector = *q == 0;
    let (len1, len2) = if vector { (*r, *r2) } else { (r * q, r2 * c2) };
    let dl: F = F::cast(*delta);
    let mut a: Vec<F> = (0..len1).map(|k| F::cast(x[k % x.len()])).collect();
    let mut b: Vec<F> = (0..len2).map(|k| F::cast(x[k % x.len()]) + F::cast(d[k % d.len()] * delta)).collect();
    if let (Some((at, k)), true) = (odd, len1 > 0 && len2 > 0) {
        let (u, v) = odd_value::<F>(*k);
        a[at % len1] = u;
        b[at % len2] = v;
    }
    let same_shape = if vector { r == r2 } else { r == r2 && q == c2 };
    // element by element; differences within rounding of the precision are not judged
    let mut want = same_shape;
    let mut sharp = true;
    if same_shape {
        for (u, v) in a.iter().zip(&b) {
            let (u, v): (f64, f64) = (cast(*u), cast(*v));
            if u == v {
                // the crate's notion of closeness does not cover equal infinities
                sharp &= u.is_finite();
                continue;
            }
            let e = (u - v).abs();
            let dd: f64 = cast(dl);
            let fuzz = 4.0 * f64::EPSILON * (u.abs() + v.abs());
            if e.is_finite() && (e - dd).abs() <= fuzz.max(if std::mem::size_of::<F>() == 4 { 1e-6 * (u.abs() + v.abs()) } else { 0.0 }) {
                sharp = false;
            }
            if !(e <= dd) {
                want = false;
            }
        }
    }
    let got = if vector {
        let (a, b) = (Array1::from(a), Array1::from(b));
        let (va, vb) = (if lay.0 { a.slice(s![..;-1]) } else { a.view() }, if lay.0 { b.slice(s![..;-1]) } else { b.view() });
        quietly(|| assert_array_all_close(va, vb, dl))
    } else {
        let mk = |v: Vec<F>, r: usize, q: usize, f: bool| {
            let m = Array2::from_shape_vec((r, q), v).unwrap();
            if f {
                let mut o = Array2::zeros((r, q).f());
                o.assign(&m);
                o
            } else {
                m
            }
        };
        let (a, b) = (mk(a, *r, *q, lay.0), mk(b, *r2, *c2, lay.1));
        quietly(|| assert_array2d_all_close(a.view(), b.view(), dl))
    };
    // an infinite or missing entry is never a matter of rounding
    if got != want && sharp {
        return Err(if want { "arrays within the precision are refused".into() } else { "arrays that differ pass as close".to_string() });
    }
    Ok(Info::new(same_shape && len1 > 1 && sharp)
        .label(if want { "close" } else { "different" })
        .label_if(vector, "vectors")
        .label_if(!same_shape, "different shapes")
        .label_if(odd.is_some(), "non-finite entries"))
}
fn cast<F: Float>(v: F) -> f64 {
    num_traits::NumCast::from(v).unwrap()
}

fn data(n: usize, p: usize, t: usize) -> Outcome {
    let near = |what: &str, a: f64, b: f64, s: f64| {
        if (a - b).abs() <= 1e-10 * (1.0 + s) {
            Ok(())
        } else {
            Err(format!("{}: {:e}, expected {:e}", what, a, b))
        }
    };
    let long = fill_random_vector(n * p + p * t + n * t);
    if long.len() != n * p + p * t + n * t || long.iter().any(|v| !v.is_finite()) {
        return Err("a random vector has the wrong length or entries".into());
    }
    for len in [n * p, p, n, p * t, n * t, 0] {
        if fill_random_vector(len) != long[..len] {
            return Err(format!("random vectors of length {} and {} do not start alike", len, long.len()));
        }
    }
    if long.len() >= 1000 {
        let m = long.len() as f64;
        let mean = long.iter().sum::<f64>() / m;
        let var = long.iter().map(|v| (v - mean).powi(2)).sum::<f64>() / m;
        let cov = long.windows(2).map(|w| w[0] * w[1]).sum::<f64>() / m;
        if !(mean.abs() < 6.0 / m.sqrt() && (var - 1.0).abs() < 9.0 / m.sqrt() && cov.abs() < 6.0 / m.sqrt()) {
            return Err(format!("{} numbers have mean {}, variance {} and lag covariance {}", m, mean, var, cov));
        }
    }
    let (x, y) = generate_random_data(n, p);
    if x.dim() != (n, p) || y.len() != n {
        return Err(format!("data of shapes {:?} and {:?}", x.dim(), y.len()));
    }
    let (x2, y2) = generate_random_data_mtl(n, p, t);
    if x2 != x || y2.dim() != (n, t) {
        return Err(format!("multi-task data of shapes {:?} and {:?}", x2.dim(), y2.dim()));
    }
    for j in 0..p {
        for i in 0..n {
            near("an entry of the column-major design", x[[i, j]], long[j * n + i], 0.0)?;
        }
    }
    for i in 0..n {
        let (mut v, mut s) = (long[i], long[i].abs());
        for j in 0..p {
            v += x[[i, j]] * long[j];
            s += (x[[i, j]] * long[j]).abs();
        }
        near("a target", y[i], v, s)?;
        for k in 0..t {
            let (mut v, mut s) = (long[i * t + k], long[i * t + k].abs());
            for j in 0..p {
                v += x[[i, j]] * long[j * t + k];
                s += (x[[i, j]] * long[j * t + k]).abs();
            }
            near("a target of a task", y2[[i, k]], v, s)?;
        }
    }
    if (generate_random_data(n, p), generate_random_data_mtl(n, p, t)) != ((x, y), (x2, y2)) {
        return Err("the generated data change from call to call".into());
    }
    Ok(Info::new(n > 1 && p > 1).label("data").label_if(long.len() >= 1000, "moments"))
}

impl Property for C29 {
    type Case = Case;
    const ID: &'static str = "C29";
    fn rule(&self) -> String {
        "pairs of arrays that differ by chosen multiples of the precision, in shape or in non-finite entries, compared by the closeness assertions; random data of random sizes compared with their construction; non-trivial = arrays of equal shape with at least two entries and no difference within rounding of the precision, or data of at least 2x2".into()
    }
    fn gen(&self, g: &mut G) -> Case {
        if g.bool(0.1) {
            let top = if g.bool(0.1) { 60 } else { 12 };
            return Case::Data { n: g.int(1, top), p: g.int(1, top), t: g.int(1, 6) };
        }
        let (r, c) = (g.int(0, 5), if g.bool(0.5) { 0 } else { g.int(1, 5) });
        let (mut r2, mut c2) = (r, c);
        if g.bool(0.2) {
            r2 = g.int(0, 5);
        }
        if c > 0 && g.bool(0.2) {
            c2 = g.int(1, 5);
        }
        let m = (r * c.max(1)).max(r2 * c2.max(1)).max(1);
        let far = g.bool(0.4);
        let x = (0..m).map(|_| (g.int(0, 400) as f64 - 200.0) / 16.0).collect();
        let mut d: Vec<f64> = (0..m).map(|_| g.pick(&[0.0, 0.0, 0.5, -0.5, 0.9, -0.9, 1.0, -1.0])).collect();
        if far {
            let k = g.int(0, m - 1);
            d[k] = g.pick(&[1.1, -1.1, 2.0, -2.0, 1e3, -1e3]);
        }
        Case::Close {
            r,
            c,
            r2,
            c2,
            f32: g.bool(0.3),
            delta: g.pick(&[1e-8, 1e-6, 1e-3, 0.25, 1.0, 0.0]),
            x,
            d,
            odd: if g.bool(0.15) { Some((g.int(0, 30), g.int(0, 7) as u8)) } else { None },
            lay: (g.bool(0.5), g.bool(0.5)),
        }
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        match c {
            Case::Data { n, p, t } => {
                for (a, b, d) in [(n / 2, *p, *t), (n - 1, *p, *t), (*n, p / 2, *t), (*n, p - 1, *t), (*n, *p, t - 1)] {
                    if a > 0 && b > 0 && d > 0 {
                        v.push(Case::Data { n: a, p: b, t: d });
                    }
                }
            }
            Case::Close { r, r2, odd, .. } => {
                for k in 0..*r {
                    if r == r2 {
                        let mut q = c.clone();
                        if let Case::Close { r, r2, .. } = &mut q {
                            (*r, *r2) = (k, k);
                        }
                        v.push(q);
                    }
                }
                if odd.is_some() {
                    let mut q = c.clone();
                    if let Case::Close { odd, .. } = &mut q {
                        *odd = None;
                    }
                    v.push(q);
                }
            }
        }
        v
    }
    fn check(&self, c: &Case) -> Outcome {
        match c {
            Case::Data { n, p, t } => data(*n, *p, *t),
            Case::Close { f32: true, .. } => close::<f32>(c),
            Case::Close { .. } => close::<f64>(c),
        }
    }
    fn cases(&self) -> (usize, usize) {
        (3_000_000, 60_000_000)
    }
}
fn main() {
    run(C29)
}
