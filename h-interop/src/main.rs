mod c24;
#[path = "../../h-client/src/common.rs"]
mod common;

use vp_rt::report::Args;

fn main() {
    let a = Args::parse();
    match a.prop.clone().as_str() {
        "C24" => c24::run(a),
        p => {
            eprintln!("no check for {p} here");
            std::process::exit(2)
        }
    }
}
