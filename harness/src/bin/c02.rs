use harness::prelude::*;

struct C02;
impl Property for C02 {
    type Case = FitCase;
    const ID: &'static str = "C02";
    fn rule(&self) -> String {
        "random multi-task problems (1 to 10 tasks, same designs and layouts as C01, 1-D or 2-D targets for one task), MultiTaskLasso/MultiTaskElasticNet or the generic solver; non-trivial = plain block coordinate descent converges on it and the solution is not null".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["optimality is demanded only where reference cyclic coordinate descent converges within 1000 epochs; the fit gets 200 x 5000".into()]
    }
    fn gen(&self, g: &mut G) -> FitCase {
        gen_fit_case(g, Shape::multi(), &[Pen::L1, Pen::EN], true)
    }
    fn shrink(&self, c: &FitCase) -> Vec<FitCase> {
        c.shrink()
    }
    fn check(&self, c: &FitCase) -> Outcome {
        judge_fit(c)
    }
    fn cases(&self) -> (usize, usize) {
        (250_000, 6_000_000)
    }
}
fn main() {
    run(C02)
}
