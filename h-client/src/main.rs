mod c01;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c17;
mod cobs;
mod common;
mod icd;
mod wide;

use vp_rt::report::Args;

fn main() {
    let a = Args::parse();
    match a.prop.clone().as_str() {
        "C01" | "C02" => c01::run(a),
        "C03" => c03::run(a),
        "C04" => c04::run(a),
        "C05" => c05::run(a),
        "C06" => c06::run(a),
        "C07" => c07::run(a),
        "C08" => c08::run(a),
        "C09" | "C10" => c09::run(a),
        "C17" => c17::run(a),
        p => {
            eprintln!("no check for {p} here");
            std::process::exit(2)
        }
    }
}
