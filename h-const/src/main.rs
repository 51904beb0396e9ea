mod c11;
mod c21;
mod c25;
#[rustfmt::skip]
mod cases;
mod oracle;

use vp_rt::report::{Args, Cases};

/// Run `f` for 0..n on all cores; the first panic is passed on.
pub fn par(c: &mut Cases, n: usize, f: impl Fn(usize) -> u64 + Sync) {
    use std::sync::atomic::{AtomicUsize, Ordering::*};
    use std::sync::Mutex;
    let next = AtomicUsize::new(0);
    let bad: Mutex<Option<(usize, String)>> = Mutex::new(None);
    let total = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Relaxed);
                if i >= n || bad.lock().unwrap().is_some() {
                    return;
                }
                vp_rt::report::beat();
                match vp_rt::catch(|| f(i)) {
                    Ok(k) => {
                        total.fetch_add(k as usize, Relaxed);
                    }
                    Err(m) => {
                        let mut b = bad.lock().unwrap();
                        if b.as_ref().is_none_or(|b| b.0 > i) {
                            *b = Some((i, m));
                        }
                        return;
                    }
                }
            });
        }
    });
    if let Some((_, m)) = bad.into_inner().unwrap() {
        panic!("{m}");
    }
    c.bulk(total.into_inner() as u64);
}

/// Build the program `bin` (src/bin) against /repo; is it accepted?
pub fn compiles(bin: &str) -> (bool, String) {
    let here = std::env::var("VP_CONST_DIR").unwrap_or("/verif/h-const".into());
    let o = std::process::Command::new("cargo")
        .args(["build", "--offline", "--release", "--quiet", "--features", "neg", "--bin", bin])
        .current_dir(here)
        .env("CARGO_TARGET_DIR", "/verif/target")
        .env("RUSTFLAGS", "--cfg vp_hooks -Awarnings")
        .output()
        .expect("cargo");
    vp_rt::report::beat();
    (o.status.success(), String::from_utf8_lossy(&o.stderr).into_owned())
}

fn main() {
    let a = Args::parse();
    match a.prop.clone().as_str() {
        "C11" => c11::run(a),
        "C21" => c21::run(a),
        "C25" => c25::run(a),
        p => {
            eprintln!("no check for {p} here");
            std::process::exit(2)
        }
    }
}
