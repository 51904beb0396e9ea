mod c18;
mod c19;
#[path = "../../h-client/src/common.rs"]
mod common;
#[path = "../../h-client/src/icd.rs"]
mod icd;
#[path = "../../h-client/src/cobs.rs"]
mod cobs;
#[path = "../../h-client/src/settings.rs"]
mod settings;

use vp_rt::report::Args;

fn main() {
    let a = Args::parse();
    match a.prop.clone().as_str() {
        "C18" => c18::run(a),
        "C19" => c19::run(a),
        p => {
            eprintln!("no check for {p} here");
            std::process::exit(2)
        }
    }
}
