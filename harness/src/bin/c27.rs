use harness::prelude::*;
use ndarray::prelude::*;
use ndarray::Data;
use sparseglm::datasets::{csc_array::CSCArray, AsMultiTargets, AsSingleTargets, DatasetBase, DenseDataset, DenseDatasetView, DesignMatrix, DesignMatrixType, SparseDataset};
use sparseglm::Float;
use std::fmt::Debug;

/// Datasets, targets and CSC arrays as containers.
struct C27;
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Elem {
    F64,
    F32,
}
/// storage of an array: column major, steps, start of the block inside a larger array
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
struct Cut {
    f: bool,
    step: (isize, isize),
    pad: usize,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Clone,
    /// taken apart and built again by `new` (or `from`)
    Rebuild(bool),
    /// one entry of the targets (design matrix) overwritten through the public field
    SetY(usize, f64),
    SetX(usize, f64),
    /// a clone kept aside is compared
    Compare,
    Keep,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    n: usize,
    p: usize,
    t: usize,
    /// one-dimensional targets (then t = 1)
    flat: bool,
    x: Vec<f64>,
    y: Vec<f64>,
    elem: Elem,
    cx: Cut,
    cy: Cut,
    ops: Vec<Op>,
}

/// `a` (row major, r x c) inside a larger array
fn store<F: Clone + Default>(a: &[F], r: usize, c: usize, k: &Cut) -> Array2<F> {
    let (sr, sc) = (k.step.0.unsigned_abs(), k.step.1.unsigned_abs());
    let shape = (r * sr + 2 * k.pad, c * sc + 2 * k.pad);
    let mut b = if k.f { Array2::from_elem(shape.f(), F::default()) } else { Array2::from_elem(shape, F::default()) };
    let mut v = view_mut(&mut b, r, c, k);
    for i in 0..r {
        for j in 0..c {
            v[[i, j]] = a[i * c + j].clone();
        }
    }
    b
}
fn cut_of(r: usize, c: usize, k: &Cut) -> (ndarray::Slice, ndarray::Slice) {
    let p = k.pad as isize;
    let one = |n: usize, s: isize| {
        let len = n as isize * s.abs();
        ndarray::Slice::new(p, Some(p + len), s)
    };
    (one(r, k.step.0), one(c, k.step.1))
}
fn view<'a, F>(b: &'a Array2<F>, r: usize, c: usize, k: &Cut) -> ArrayView2<'a, F> {
    let (a, d) = cut_of(r, c, k);
    let mut v = b.view();
    v.slice_axis_inplace(Axis(0), a);
    v.slice_axis_inplace(Axis(1), d);
    v
}
fn view_mut<'a, F>(b: &'a mut Array2<F>, r: usize, c: usize, k: &Cut) -> ArrayViewMut2<'a, F> {
    let (a, d) = cut_of(r, c, k);
    let mut v = b.view_mut();
    v.slice_axis_inplace(Axis(0), a);
    v.slice_axis_inplace(Axis(1), d);
    v
}

type R = Result<(), String>;
fn expect<T: PartialEq + Debug>(what: &str, got: T, want: T) -> R {
    if got == want {
        Ok(())
    } else {
        Err(format!("{} is {:?}, expected {:?}", what, got, want))
    }
}
fn cells<F: Copy>(v: ArrayView2<F>) -> (usize, usize, Vec<F>) {
    (v.nrows(), v.ncols(), (0..v.nrows()).flat_map(|i| (0..v.ncols()).map(move |j| (i, j))).map(|(i, j)| v[[i, j]]).collect())
}

/// what every kind of targets promises
fn targets<T: AsMultiTargets>(y: &T, n: usize, t: usize, want: &[T::Elem]) -> R
where
    T::Elem: Copy + PartialEq + Debug,
{
    fn one<T: AsMultiTargets>(how: &str, y: T, n: usize, t: usize, want: &[T::Elem]) -> R
    where
        T::Elem: Copy + PartialEq + Debug,
    {
        expect(&format!("n_samples {}", how), y.n_samples(), n)?;
        expect(&format!("n_tasks {}", how), y.n_tasks(), t)?;
        expect(&format!("the multi-task view {}", how), cells(y.as_multi_tasks()), (n, t, want.to_vec()))
    }
    one("of a reference", y, n, t, want)?;
    one("of a reference to a reference", &y, n, t, want)?;
    one("of a nested reference", &&y, n, t, want)
}
/// no copy is made
fn borrowed<'a, F>(m: ArrayView2<'a, F>, first: *const F, what: &str) -> R {
    if m.is_empty() || m.as_ptr() == first {
        Ok(())
    } else {
        Err(format!("{} is not a view of the targets", what))
    }
}
fn single<T: AsSingleTargets>(y: &T, want: &[T::Elem]) -> R
where
    T::Elem: Copy + PartialEq + Debug,
{
    let v = y.try_single_target().map_err(|e| format!("targets of one column are refused: {}", e))?;
    expect("the single-task view", v.iter().copied().collect::<Vec<_>>(), want.to_vec())?;
    expect("the single-task view by index", (0..v.len()).map(|i| v[i]).collect::<Vec<_>>(), want.to_vec())
}

/// user-written targets over any storage, offered to single-task models
struct UserY<'a, F>(ArrayView2<'a, F>);
impl<'a, F> AsMultiTargets for UserY<'a, F> {
    type Elem = F;
    fn n_samples(&self) -> usize {
        self.0.nrows()
    }
    fn n_tasks(&self) -> usize {
        self.0.ncols()
    }
    fn as_multi_tasks(&self) -> ArrayView2<'_, F> {
        self.0.view()
    }
}
impl<'a, F> AsSingleTargets for UserY<'a, F> {}

fn design<DM: DesignMatrix>(x: &DM, p: usize, sparse: bool) -> R {
    let k = if sparse { DesignMatrixType::Sparse } else { DesignMatrixType::Dense };
    expect("the number of features", x.n_features(), p)?;
    expect("the number of features of a reference", (&x).n_features(), p)?;
    expect("the matrix type", x.matrix_type(), k.clone())?;
    expect("the matrix type of a reference", (&x).matrix_type(), k)
}

fn dense_parts<F: Float, S: Data<Elem = F>, T: AsMultiTargets<Elem = F>>(ds: &DatasetBase<ArrayBase<S, Ix2>, T>, n: usize, p: usize, t: usize, x: &[F], y: &[F]) -> R {
    expect("the design matrix", cells(ds.design_matrix().view()), (n, p, x.to_vec()))?;
    if !std::ptr::eq(ds.design_matrix(), &ds.design_matrix) || !std::ptr::eq(ds.targets(), &ds.targets) {
        return Err("a getter does not return the dataset's own part".into());
    }
    design(ds.design_matrix(), p, false)?;
    targets(ds.targets(), n, t, y)
}

/// a history of operations on an owned dataset next to its model
fn history<F: Float + 'static>(c: &Case, x: Vec<F>, y: Vec<F>) -> Result<bool, String> {
    let (n, p, t) = (c.n, c.p, c.t);
    let (bx, by) = (store(&x, n, p, &c.cx), store(&y, n, t, &c.cy));
    // owned arrays in the generated storage: slices moved in place
    let own = |b: Array2<F>, r: usize, q: usize, k: &Cut| {
        let (a, d) = cut_of(r, q, k);
        let mut b = b;
        b.slice_axis_inplace(Axis(0), a);
        b.slice_axis_inplace(Axis(1), d);
        b
    };
    let mut ds: DenseDataset<F, Array2<F>> = DatasetBase::from((own(bx, n, p, &c.cx), own(by, n, t, &c.cy)));
    let (mut mx, mut my) = (x, y);
    let mut kept: Vec<(DenseDataset<F, Array2<F>>, Vec<F>, Vec<F>)> = vec![];
    let mut changed = false;
    for op in &c.ops {
        match op {
            Op::Clone => ds = ds.clone(),
            Op::Rebuild(true) => ds = DatasetBase::new(ds.design_matrix, ds.targets),
            Op::Rebuild(false) => ds = DatasetBase::from((ds.design_matrix, ds.targets)),
            Op::SetY(k, v) => {
                let k = k % (n * t);
                ds.targets[[k / t, k % t]] = F::cast(*v);
                my[k] = F::cast(*v);
                changed = true;
            }
            Op::SetX(k, v) => {
                let k = k % (n * p);
                ds.design_matrix[[k / p, k % p]] = F::cast(*v);
                mx[k] = F::cast(*v);
                changed = true;
            }
            Op::Keep => kept.push((ds.clone(), mx.clone(), my.clone())),
            Op::Compare => {}
        }
        dense_parts(&ds, n, p, t, &mx, &my)?;
        for (k, kx, ky) in &kept {
            dense_parts(k, n, p, t, kx, ky).map_err(|e| format!("of a clone kept aside: {}", e))?;
            expect("equality of two datasets", *k == ds, *kx == mx && *ky == my)?;
        }
        // another layout of the same numbers
        let plain = DatasetBase::new(Array2::from_shape_vec((n, p), mx.clone()).unwrap(), Array2::from_shape_vec((n, t), my.clone()).unwrap());
        expect("equality with a plain dataset of the same numbers", plain == ds, true)?;
    }
    Ok(changed && !kept.is_empty())
}

fn go<F: Float + 'static>(c: &Case) -> Outcome {
    let (n, p, t) = (c.n, c.p, c.t);
    let x: Vec<F> = c.x.iter().map(|&v| F::cast(v)).collect();
    let y: Vec<F> = c.y.iter().map(|&v| F::cast(v)).collect();
    let (bx, by) = (store(&x, n, p, &c.cx), store(&y, n, t, &c.cy));
    let (vx, vy) = (view(&bx, n, p, &c.cx), view(&by, n, t, &c.cy));
    // borrowed parts
    if c.flat {
        let y1 = vy.index_axis(Axis(1), 0);
        let ds: DenseDatasetView<&F, ArrayView1<F>> = DatasetBase::from((vx, y1));
        dense_parts(&ds, n, p, 1, &x, &y)?;
        borrowed(ds.targets().as_multi_tasks(), y1.as_ptr(), "the multi-task view")?;
        single(ds.targets(), &y)?;
        let o: DenseDataset<F, Array1<F>> = DatasetBase::new(vx.to_owned(), y1.to_owned());
        dense_parts(&o, n, p, 1, &x, &y)?;
        single(o.targets(), &y)?;
        expect("the clone", o.clone() == o, true)?;
        let r = DatasetBase::new(&vx, &y1);
        expect("the features of a dataset of references", r.design_matrix().n_features(), p)?;
        targets(r.targets(), n, 1, &y)?;
    } else {
        let ds: DenseDatasetView<&F, ArrayView2<F>> = DatasetBase::from((vx, vy));
        dense_parts(&ds, n, p, t, &x, &y)?;
        borrowed(ds.targets().as_multi_tasks(), vy.as_ptr(), "the multi-task view")?;
        let r = DatasetBase::new(&vx, &vy);
        expect("the features of a dataset of references", r.design_matrix().n_features(), p)?;
        targets(r.targets(), n, t, &y)?;
    }
    // any number of columns behind the single-task interface
    let u = UserY(vy);
    targets(&u, n, t, &y)?;
    if t == 1 {
        single(&u, &y)?;
        borrowed(u.try_single_target().unwrap().insert_axis(Axis(1)), vy.as_ptr(), "the single-task view")?;
    } else {
        match u.try_single_target() {
            Ok(_) => return Err(format!("targets with {} columns pass for a vector", t)),
            Err(e) => {
                expect("the error's message", e.to_string(), "Unable to cast multi-dimensional array into 1d array".to_string())?;
                expect("the error's clone", format!("{:?}", e.clone()), "NonCastableSingleTargets".to_string())?;
            }
        }
    }
    // targets of other element types
    let words: Vec<i64> = c.y.iter().map(|v| (*v * 8.0) as i64).collect();
    let wb = store(&words, n, t, &c.cy);
    targets(&view(&wb, n, t, &c.cy), n, t, &words)?;
    // compressed columns: order of the rows within a column is free, zeros may be stored
    let (mut data, mut indices, mut indptr) = (vec![], vec![], vec![0i32]);
    for j in 0..p {
        let mut rows: Vec<usize> = (0..n).filter(|&i| c.x[i * p + j] != 0.0 || (i + j) % 5 == 0).collect();
        if j % 2 == 1 {
            rows.reverse();
        }
        for i in rows {
            data.push(x[i * p + j]);
            indices.push(i as i32);
        }
        indptr.push(data.len() as i32);
    }
    let (ad, ai, ap) = (Array1::from(data.clone()), Array1::from(indices.clone()), Array1::from(indptr.clone()));
    let a = CSCArray::new(ad.view(), ai.view(), ap.view());
    design(&a, p, true)?;
    let s: SparseDataset<F, Array2<F>> = DatasetBase::from((a.clone(), vy.to_owned()));
    for m in [&a, s.design_matrix(), &s.clone().design_matrix] {
        expect("the values of the CSC array", m.data.to_vec(), data.clone())?;
        expect("the rows of the CSC array", m.indices.to_vec(), indices.clone())?;
        expect("the column starts of the CSC array", m.indptr.to_vec(), indptr.clone())?;
    }
    design(s.design_matrix(), p, true)?;
    targets(s.targets(), n, t, &y)?;
    if let Some(v) = data.first() {
        let mut other = data.clone();
        other[0] = *v + F::one();
        let od = Array1::from(other);
        let b = CSCArray::new(od.view(), ai.view(), ap.view());
        expect("equality of different CSC arrays", a == b, false)?;
        expect("equality of different sparse datasets", s == DatasetBase::new(b, vy.to_owned()), false)?;
    }
    let changed = history(c, x, y)?;
    Ok(Info::new(changed || (n > 1 && p > 1 && (c.cx.step != (1, 1) || c.cy.step != (1, 1))))
        .label(format!("{:?}", c.elem))
        .label_if(c.flat, "one-dimensional targets")
        .label_if(t > 1, "several tasks")
        .label_if(changed, "parts overwritten next to kept clones"))
}

fn gen_cut(g: &mut G) -> Cut {
    Cut { f: g.bool(0.5), step: (g.pick(&[1, 1, -1, 2, -2, 3]), g.pick(&[1, 1, -1, 2, -2, 3])), pad: g.int(0, 2) }
}

impl Property for C27 {
    type Case = Case;
    const ID: &'static str = "C27";
    fn rule(&self) -> String {
        "random matrix and targets in owned, borrowed and referenced storage of any order and stride, f32/f64/integer elements, user-written targets, CSC arrays, and a history of operations on a dataset next to a model; non-trivial = parts were overwritten next to a kept clone, or a strided layout of at least 2x2".into()
    }
    fn gen(&self, g: &mut G) -> Case {
        let (n, p, flat) = (g.int(1, 7), g.int(1, 7), g.bool(0.3));
        let t = if flat { 1 } else { g.int(1, 5) };
        let mut num = |g: &mut G| if g.bool(0.2) { 0.0 } else { (g.int(0, 64) as f64 - 32.0) / 8.0 };
        let x = (0..n * p).map(|_| num(g)).collect();
        let y = (0..n * t).map(|_| num(g)).collect();
        let ops = (0..g.int(0, 8))
            .map(|_| match g.int(0, 6) {
                0 => Op::Clone,
                1 => Op::Rebuild(g.bool(0.5)),
                2 => Op::SetY(g.int(0, 999), num(g)),
                3 => Op::SetX(g.int(0, 999), num(g)),
                4 => Op::Compare,
                _ => Op::Keep,
            })
            .collect();
        Case { n, p, t, flat, x, y, elem: if g.bool(0.3) { Elem::F32 } else { Elem::F64 }, cx: gen_cut(g), cy: gen_cut(g), ops }
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        for i in 0..c.ops.len() {
            let mut q = c.clone();
            q.ops.remove(i);
            v.push(q);
        }
        let plain = Cut { f: false, step: (1, 1), pad: 0 };
        if c.cx != plain {
            v.push(Case { cx: plain, ..c.clone() });
        }
        if c.cy != plain {
            v.push(Case { cy: plain, ..c.clone() });
        }
        let keep = |a: &[f64], from: usize, r: usize, q: usize| (0..r).flat_map(|i| (0..q).map(move |j| i * from + j)).map(|k| a[k]).collect::<Vec<_>>();
        if c.n > 1 {
            v.push(Case { n: c.n - 1, x: keep(&c.x, c.p, c.n - 1, c.p), y: keep(&c.y, c.t, c.n - 1, c.t), ..c.clone() });
        }
        if c.p > 1 {
            v.push(Case { p: c.p - 1, x: keep(&c.x, c.p, c.n, c.p - 1), ..c.clone() });
        }
        if c.t > 1 {
            v.push(Case { t: c.t - 1, y: keep(&c.y, c.t, c.n, c.t - 1), ..c.clone() });
        }
        v
    }
    fn check(&self, c: &Case) -> Outcome {
        match c.elem {
            Elem::F64 => go::<f64>(c),
            Elem::F32 => go::<f32>(c),
        }
    }
    fn cases(&self) -> (usize, usize) {
        (1_000_000, 30_000_000)
    }
}
fn main() {
    run(C27)
}
