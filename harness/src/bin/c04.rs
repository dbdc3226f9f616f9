use harness::prelude::*;

struct C04;
impl Property for C04 {
    type Case = FitCase;
    const ID: &'static str = "C04";
    fn rule(&self) -> String {
        "random classification problems (random, separable, noisy or constant labels) with L1, L1+L2 and MCP through the generic solver; non-trivial = plain coordinate descent converges on it and the solution is not null".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["optimality is demanded only where reference cyclic coordinate descent converges within 1000 epochs; the fit gets 200 x 5000".into()]
    }
    fn gen(&self, g: &mut G) -> FitCase {
        gen_fit_case(g, Shape::labels(), &[Pen::L1, Pen::EN, Pen::MCP], false)
    }
    fn shrink(&self, c: &FitCase) -> Vec<FitCase> {
        c.shrink()
    }
    fn check(&self, c: &FitCase) -> Outcome {
        judge_fit(c)
    }
    fn cases(&self) -> (usize, usize) {
        (120_000, 3_000_000)
    }
}
fn main() {
    run(C04)
}
