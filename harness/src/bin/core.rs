//! Service for the Python checks: fits on the core library and reference descents, one JSON request per line.
use harness::prelude::*;
use std::io::{BufRead, Write};

#[derive(Deserialize)]
struct Req {
    model: Model,
    knobs: Knobs,
    pb: Problem,
    /// also tell whether plain coordinate descent converges quickly
    easy: bool,
    /// coefficients (row-major p x t) whose budget exhaustion is in question
    w: Option<Vec<f64>>,
}
#[derive(Serialize)]
struct Rep {
    /// the fit through the estimators on several layouts: column-major, row-major, sparse, shuffled sparse
    w: Vec<Result<Vec<f64>, String>>,
    easy: bool,
    exhausted: bool,
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let r: Req = serde_json::from_str(&line.unwrap()).expect("request");
        let go = |x: XKind| {
            let l = Layout { x, y: YKind::View, seed: 0 };
            guarded(|| fit(&r.pb, &r.model, &Knobs { verbose: false, ..r.knobs }, &l, Api::Estimator))
        };
        let rep = Rep {
            w: [XKind::ViewF, XKind::OwnedC, XKind::Csc, XKind::CscShuffled].into_iter().map(go).collect(),
            easy: r.easy && easy(&r.pb, &r.model, r.knobs.tol),
            exhausted: r.w.as_ref().is_some_and(|w| exhausted(&r.pb, &r.model, r.knobs.tol, w)),
        };
        let mut o = out.lock();
        serde_json::to_writer(&mut o, &rep).unwrap();
        o.write_all(b"\n").unwrap();
        o.flush().unwrap();
    }
}
