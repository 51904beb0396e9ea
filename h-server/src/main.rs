mod c12;
mod c20;
mod c22;
mod c26;
#[path = "../../h-client/src/common.rs"]
mod common;
mod icd;
mod mock;
#[path = "../../h-const/src/oracle.rs"]
mod oracle;

use vp_rt::report::Args;

fn main() {
    let a = Args::parse();
    match a.prop.clone().as_str() {
        "C12" | "C13" => c12::run(a),
        "C20" => c20::run(a),
        "C22" => c22::run(a),
        "C26" => c26::run(a),
        p => {
            eprintln!("no check for {p} here");
            std::process::exit(2)
        }
    }
}
