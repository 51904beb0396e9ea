mod c23;
#[path = "../../h-client/src/common.rs"]
mod common;
#[path = "../../h-client/src/icd.rs"]
mod icd;
#[path = "../../h-client/src/settings.rs"]
mod settings;

use vp_rt::report::Args;

fn main() {
    let a = Args::parse();
    match a.prop.clone().as_str() {
        "C23" => c23::run(a),
        p => {
            eprintln!("no check for {p} here");
            std::process::exit(2)
        }
    }
}
