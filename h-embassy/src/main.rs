mod c14;
mod c15;
mod c16;
#[path = "../../h-client/src/common.rs"]
mod common;
mod usb;

use vp_rt::report::Args;

fn main() {
    let a = Args::parse();
    match a.prop.clone().as_str() {
        "C14" => c14::run(a),
        "C15" => c15::run(a),
        "C16" => c16::run(a),
        p => {
            eprintln!("no check for {p} here");
            std::process::exit(2)
        }
    }
}
