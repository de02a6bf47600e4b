//! Small programs run in their own process by some checks.
pub fn main(argv: &[String]) {
    match argv[0].as_str() {
        "pretty" => crate::checks::rules::worker(&argv[1..]),
        "report" => crate::checks::sat::worker_report(&argv[1]),
        "infer" => crate::checks::infer::worker(&argv[1..]),
        x => panic!("no worker {x}"),
    }
}
