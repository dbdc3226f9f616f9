use harness::prelude::*;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

/// What a verbose fit prints, and that a silent one prints nothing.
struct C28;
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    fit: FitCase,
}

/// A process of its own runs the fits, so that its output is theirs alone.
struct Worker {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
const END: &str = "@@end ";
thread_local! {
    static WORKER: RefCell<Option<Worker>> = const { RefCell::new(None) };
}
impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
fn start() -> Result<Worker, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    // stderr goes the same way
    let mut child = Command::new("/bin/sh")
        .args(["-c", "exec \"$0\" 2>&1"])
        .arg(exe)
        .env("VERIF_WORKER", "1")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .spawn()
        .map_err(|e| e.to_string())?;
    Ok(Worker { to: child.stdin.take().unwrap(), from: BufReader::new(child.stdout.take().unwrap()), child })
}

/// coefficients and everything printed
fn listen(f: &FitCase) -> Result<(Vec<f64>, Vec<String>), String> {
    WORKER.with(|cell| {
        let mut slot = cell.borrow_mut();
        let mut go = || -> Result<Result<(Vec<f64>, Vec<String>), String>, String> {
            if slot.is_none() {
                *slot = Some(start()?);
            }
            let w = slot.as_mut().unwrap();
            serde_json::to_writer(&mut w.to, f).map_err(|e| e.to_string())?;
            w.to.write_all(b"\n").and_then(|_| w.to.flush()).map_err(|e| e.to_string())?;
            let mut out = String::new();
            let mut line = String::new();
            loop {
                line.clear();
                if w.from.read_line(&mut line).map_err(|e| e.to_string())? == 0 {
                    return Err(format!("the fitting process ended; it printed: {}", out.chars().take(300).collect::<String>()));
                }
                // the fit's last line may not be ended
                if let Some(at) = line.find(END) {
                    out.push_str(&line[..at]);
                    let r: Result<Vec<f64>, String> = serde_json::from_str(&line[at + END.len()..]).map_err(|e| e.to_string())?;
                    return Ok(r.map(|w| (w, out.lines().map(|l| l.to_string()).collect())));
                }
                out.push_str(&line);
            }
        };
        match go() {
            Ok(r) => r,
            Err(e) => {
                *slot = None;
                Err(e)
            }
        }
    })
}

fn worker() {
    std::panic::set_hook(Box::new(|_| {}));
    // a fit that never ends
    static TURN: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    std::thread::spawn(|| loop {
        let at = TURN.load(std::sync::atomic::Ordering::SeqCst);
        std::thread::sleep(std::time::Duration::from_secs(100));
        // odd turns are fits under way
        if at % 2 == 1 && TURN.load(std::sync::atomic::Ordering::SeqCst) == at {
            println!("no end after 100 s");
            std::process::exit(9);
        }
    });
    for line in std::io::stdin().lock().lines() {
        let f: FitCase = serde_json::from_str(&line.unwrap()).expect("request");
        TURN.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let r = guarded(|| f.fit());
        TURN.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        // non-finite numbers have no JSON
        let r = r.and_then(|w| if w.iter().all(|v| v.is_finite()) { Ok(w) } else { Err("non-finite coefficients".into()) });
        let s = serde_json::to_string(&r).unwrap();
        println!("{}{}", END, s);
        std::io::stdout().flush().unwrap();
    }
}

fn number(s: &str) -> Option<f64> {
    s.trim().parse().ok()
}
/// the numbers after the labels of a progress line "a: 1 :: b: 2"
fn fields(l: &str) -> Vec<f64> {
    l.split("::").filter_map(|p| number(p.trim().rsplit([':', ' ']).next().unwrap_or(""))).collect()
}

/// 0 * infinity in the penalty
fn undefined(m: &Model) -> bool {
    m.pen == Pen::MCP && m.alpha == 0.0 && m.gamma.is_infinite()
}

fn obj_slack(pb: &Problem, w: &[f64], o0: f64) -> f64 {
    let absw: Vec<f64> = w.iter().map(|v| v.abs()).collect();
    let ab = Problem { x: pb.x.iter().map(|v| v.abs()).collect(), ..pb.clone() };
    let big = norm(&ab.xw(&absw));
    let ny = norm(&pb.y);
    1e-12 * o0 + 500.0 * f64::EPSILON * big * (ny + 1e-3 * big) / pb.n as f64
}

impl Property for C28 {
    type Case = Case;
    const ID: &'static str = "C28";
    fn rule(&self) -> String {
        "random problem of any model fitted verbosely and silently in a process of its own; the printed progress is compared with violations, supports and objectives recomputed from the fits of smaller budgets; non-trivial = at least two outer iterations or an epoch report were printed".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["numbers are compared up to the rounding of the running prediction; lines other than the ones about the violation, the subproblem and the epochs may say anything".into()]
    }
    fn gen(&self, g: &mut G) -> Case {
        let small = |s: Shape| Shape { max_n: 20, max_p: 25, large: 0.003, tail: [1, 1, 1, 1, 0, 2], ..s };
        let mut fit = match g.weighted(&[4, 3, 2]) {
            0 => gen_fit_case(g, small(Shape::single()), &[Pen::L1, Pen::EN, Pen::MCP, Pen::L05], false),
            1 => gen_fit_case(g, small(Shape::multi()), &[Pen::L1, Pen::EN, Pen::MCP], true),
            _ => gen_fit_case(g, small(Shape::labels()), &[Pen::L1, Pen::EN, Pen::MCP], false),
        };
        fit.knobs.verbose = true;
        fit.knobs.max_iter = g.int(0, 5);
        fit.knobs.max_epochs = g.pick(&[0, 1, 3, 10, 11, 12, 20, 21, 30, 45]);
        if g.bool(0.5) {
            fit.knobs.ws = g.int(1, fit.pb.p.min(5));
        }
        if g.bool(0.3) {
            fit.knobs.tol = 0.0;
        }
        if undefined(&fit.model) {
            fit.model.pen = Pen::L1;
        }
        Case { fit }
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        c.fit.shrink().into_iter().filter(|f| f.knobs.verbose && !undefined(&f.model)).map(|fit| Case { fit }).collect()
    }
    fn check(&self, c: &Case) -> Outcome {
        let (pb, m, k) = (&c.fit.pb, &c.fit.model, &c.fit.knobs);
        let t = pb.t;
        let quiet = |i: usize, e: usize| FitCase { knobs: Knobs { verbose: false, max_iter: i, max_epochs: e, ..*k }, ..c.fit.clone() };
        let (w, said) = listen(&c.fit)?;
        let (wq, nothing) = listen(&quiet(k.max_iter, k.max_epochs))?;
        if let Some(l) = nothing.first() {
            return Err(format!("a fit that is not verbose prints {:?}", l));
        }
        if w != wq {
            return Err("a verbose fit returns other coefficients".into());
        }
        let here = guarded(|| quiet(k.max_iter, k.max_epochs).fit())?;
        if w != here {
            return Err("the same fit in another process returns other coefficients".into());
        }
        // outer iterates
        let mut iterates = vec![];
        for i in 0..=k.max_iter {
            iterates.push(quiet(i, k.max_epochs).fit()?);
        }
        let ab = Problem { x: pb.x.iter().map(|v| v.abs()).collect(), ..pb.clone() };
        let big = iterates
            .iter()
            .flat_map(|w| ab.xw(&w.iter().map(|v| v.abs()).collect::<Vec<_>>()))
            .fold(0.0, f64::max);
        let f = if m.logistic { 0.25 } else { 1.0 };
        let lips = pb.lips();
        // lowest and highest value of the violation of each feature up to rounding
        let bounds = |w: &[f64]| -> Vec<(f64, f64)> {
            let sl = slack(pb, m, w, f64::EPSILON);
            let g = gradient(pb, m.logistic, &pb.xw(w));
            violations(pb, m, w)
                .into_iter()
                .enumerate()
                .map(|(j, v)| {
                    let mut margin = sl + 1e-10 * lips[j].sqrt() * (big + 1e-3 * (m.logistic as u8 as f64)) + 1e-9 * v;
                    if m.pen == Pen::L05 {
                        if lips[j] == 0.0 {
                            return (v, v);
                        }
                        margin = margin / (lips[j] * f) + 1e-9 * w[j].abs();
                        let r = (w[j] - g[j] / (lips[j] * f)).abs();
                        let jump = 1.5 * (m.alpha / (lips[j] * f)).powf(2.0 / 3.0);
                        if (r - jump).abs() <= 1e-6 * jump + margin {
                            return (0.0, (v + 2.0 * jump + w[j].abs()) * (1.0 + 1e-6) + 10.0 * margin);
                        }
                    }
                    (v - 10.0 * margin, v + 10.0 * margin)
                })
                .collect()
        };
        let top = |b: &[(f64, f64)]| b.iter().fold((0.0f64, 0.0f64), |a, v| (a.0.max(v.0), a.1.max(v.1)));
        let o0 = objective(pb, m, &vec![0.0; pb.p * t]);
        let os: Vec<(f64, f64)> = iterates.iter().map(|w| (objective(pb, m, w), obj_slack(pb, w, o0))).collect();

        // the report, split at the violations of the outer iterations
        let mut seen = 0usize; // violations printed
        let mut begun = 0usize; // subproblems announced
        let mut epoch: Option<usize> = None;
        let mut last: Option<(usize, f64)> = None; // outer iteration and objective of the last epoch report
        let mut reports = 0;
        let mut stopped = false;
        for l in &said {
            if let Some(v) = l.strip_prefix("KKT max violation:") {
                let v = number(v).ok_or_else(|| format!("no number in {:?}", l))?;
                if seen != begun || stopped || seen >= k.max_iter {
                    return Err(format!("{:?} where no outer iteration starts", l));
                }
                let (lo, hi) = top(&bounds(&iterates[seen]));
                if !(v >= lo && v <= hi) {
                    return Err(format!("outer iteration {} reports a violation of {:e}, it is between {:e} and {:e}", seen + 1, v, lo, hi));
                }
                seen += 1;
                stopped = v <= k.tol;
            } else if l.starts_with("Iteration ") {
                let ns: Vec<usize> = l.split(|c: char| !c.is_ascii_digit()).filter_map(|s| s.parse().ok()).collect();
                if seen != begun + 1 || stopped || ns.len() != 2 {
                    return Err(format!("{:?} where no subproblem starts", l));
                }
                let w = &iterates[begun];
                let nnz = (0..pb.p).filter(|&j| w[j * t..(j + 1) * t].iter().any(|&v| v != 0.0)).count();
                let size = k.ws.min(pb.p).max((2 * nnz).min(pb.p));
                begun += 1;
                if ns != [begun, size] {
                    return Err(format!("{:?}, but this is outer iteration {} with {} features", l, begun, size));
                }
                epoch = None;
            } else if l.starts_with("epoch:") {
                let v = fields(l);
                if v.len() != 3 || begun == 0 || seen != begun {
                    return Err(format!("unexpected report {:?}", l));
                }
                let e = v[0] as usize;
                if e as f64 != v[0] || e >= k.max_epochs || epoch.is_some_and(|p| e <= p) {
                    return Err(format!("{:?} after epoch {:?} of {}", l, epoch, k.max_epochs));
                }
                epoch = Some(e);
                reports += 1;
                // the objective lies between those of the surrounding outer iterates
                let (a, b) = (os[begun - 1], os[begun]);
                let sl = 2.0 * (a.1 + b.1);
                if !(v[1] <= a.0 + sl && v[1] >= b.0 - sl) {
                    return Err(format!("{:?} in outer iteration {}, whose objective goes from {:e} to {:e}", l, begun, a.0, b.0));
                }
                if let Some((i, o)) = last {
                    if i == begun && !(v[1] <= o + sl) {
                        return Err(format!("{:?}: the reported objective rises from {:e}", l, o));
                    }
                }
                last = Some((begun, v[1]));
                if begun == 1 {
                    // exactly this point is returned with a smaller budget
                    let w = quiet(1, e + 1).fit()?;
                    let o = objective(pb, m, &w);
                    if !((v[1] - o).abs() <= obj_slack(pb, &w, o0) * 2.0 + 1e-12 * o.abs()) {
                        return Err(format!("{:?}, the objective is {:e}", l, o));
                    }
                    let b = bounds(&w);
                    let hi = top(&b).1;
                    let lo = (0..pb.p).filter(|&j| w[j * t..(j + 1) * t].iter().any(|&v| v != 0.0)).map(|j| b[j].0).fold(0.0, f64::max);
                    if !(v[2] >= lo && v[2] <= hi) {
                        return Err(format!("{:?}, the violation is between {:e} and {:e}", l, lo, hi));
                    }
                }
            }
        }
        // nothing is left out
        if !stopped && (seen != k.max_iter || begun != k.max_iter) {
            return Err(format!("{} violations and {} subproblems are reported in {} outer iterations", seen, begun, k.max_iter));
        }
        if stopped && begun + 1 != seen {
            return Err("the report ends early".into());
        }
        Ok(Info::new(seen >= 2 || reports > 0)
            .label(format!("{:?}{}{}", m.pen, if m.multi { " multi" } else { "" }, if m.logistic { " logistic" } else { "" }))
            .label_if(reports > 0, "epoch reports")
            .label_if(stopped, "stopped by the tolerance")
            .label_if(said.iter().any(|l| l.starts_with("[ACCEL]")), "extrapolation reported")
            .label(format!("{:?}", c.fit.api)))
    }
    fn cases(&self) -> (usize, usize) {
        (150_000, 6_000_000)
    }
}
fn main() {
    if std::env::var("VERIF_WORKER").is_ok() {
        return worker();
    }
    run(C28)
}
