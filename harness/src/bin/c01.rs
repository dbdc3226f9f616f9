use harness::prelude::*;

struct C01;
impl Property for C01 {
    type Case = FitCase;
    const ID: &'static str = "C01";
    fn rule(&self) -> String {
        "random single-task Lasso/ElasticNet problems (gaussian, correlated, integer, sparse, one-hot, binary, low-rank designs; degenerate and rescaled columns), all solver knobs and storage layouts, estimator or generic solver; non-trivial = plain coordinate descent converges on it (so optimality is demanded) and the solution is not null".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["optimality is demanded only where reference cyclic coordinate descent converges within 1000 epochs; the fit gets 200 x 5000".into()]
    }
    fn gen(&self, g: &mut G) -> FitCase {
        gen_fit_case(g, Shape::single(), &[Pen::L1, Pen::EN], false)
    }
    fn shrink(&self, c: &FitCase) -> Vec<FitCase> {
        c.shrink()
    }
    fn check(&self, c: &FitCase) -> Outcome {
        judge_fit(c)
    }
    fn cases(&self) -> (usize, usize) {
        (350_000, 8_000_000)
    }
}
fn main() {
    run(C01)
}
