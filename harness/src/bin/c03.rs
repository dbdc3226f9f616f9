use harness::prelude::*;

struct C03;
impl Property for C03 {
    type Case = FitCase;
    const ID: &'static str = "C03";
    fn rule(&self) -> String {
        "random problems for MCP (single and multi-task, gamma * L_j > 1, gamma up to infinity) and L0.5; non-trivial = plain coordinate descent converges on it and the solution is not null".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["optimality is demanded only where reference cyclic coordinate descent converges within 1000 epochs; the fit gets 200 x 5000; MCP is exercised where its coordinate subproblems are strongly convex (gamma * L_j >= 1.19), as its documentation requires".into()]
    }
    fn gen(&self, g: &mut G) -> FitCase {
        match g.weighted(&[5, 4, 2]) {
            0 => gen_fit_case(g, Shape::single(), &[Pen::MCP], false),
            1 => gen_fit_case(g, Shape::multi(), &[Pen::MCP], true),
            _ => gen_fit_case(g, Shape::single(), &[Pen::L05], false),
        }
    }
    fn shrink(&self, c: &FitCase) -> Vec<FitCase> {
        c.shrink()
    }
    fn check(&self, c: &FitCase) -> Outcome {
        judge_fit(c)
    }
    fn cases(&self) -> (usize, usize) {
        (300_000, 6_000_000)
    }
}
fn main() {
    run(C03)
}
