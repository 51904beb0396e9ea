//! C25: a dispatcher definition is accepted exactly when it is consistent.
//!
//! Every definition of a bounded space is written out as a module of one generated program, which
//! is built against /repo. The definitions the compiler refuses are compared with those that are
//! inconsistent by an oracle working on paths and types only.
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use vp_rt::report::{Args, Report};

/// (request type, response type, path)
type Ep = (&'static str, &'static str, &'static str);
/// (message type, path)
type Tp = (&'static str, &'static str);

const A: Ep = ("u8", "u16", "p/a");
const B: Ep = ("u8", "u16", "p/b");
const C: Ep = ("u16", "u8", "p/c");
/// the request of A, another response
const A_RESP: Ep = ("u8", "u32", "p/a");
/// the response of A, another request
const A_REQ: Ep = ("u32", "u16", "p/a");
/// one key for both directions
const S: Ep = ("u64", "u64", "p/s");
const PING: Ep = ("u32", "u32", "postcard-rpc/ping");
const ERR: Ep = ("u8", "WireError", "error");
const ERR_IN: Ep = ("WireError", "u8", "error");
/// another type under the path of a built-in message
const PING2: Ep = ("u32", "u8", "postcard-rpc/ping");
const PING3: Ep = ("u8", "u8", "postcard-rpc/ping");

const T: Tp = ("u32", "p/t");
const U: Tp = ("u32", "p/u");
const V: Tp = ("u8", "p/v");
/// another type under the path of T
const T2: Tp = ("u16", "p/t");

#[derive(Clone, Default)]
struct Def {
    /// listed, and whether switched off by its Cfg column
    eps: Vec<(Ep, bool)>,
    ep_handlers: Vec<Ep>,
    tin: Vec<(Tp, bool)>,
    tin_handlers: Vec<Tp>,
    tout: Vec<(Tp, bool)>,
}

fn on<X: Copy>(v: &[X]) -> Vec<(X, bool)> {
    v.iter().map(|x| (*x, true)).collect()
}
fn live<X: Copy>(v: &[(X, bool)]) -> Vec<X> {
    v.iter().filter(|x| x.1).map(|x| x.0).collect()
}

impl Def {
    /// A message is its path and type.
    fn consistent(&self) -> Result<(), String> {
        let eps = live(&self.eps);
        let (tin, tout) = (live(&self.tin), live(&self.tout));
        for h in &self.ep_handlers {
            if !eps.contains(h) {
                return Err(format!("handler for the unlisted endpoint {h:?}"));
            }
        }
        for h in &self.tin_handlers {
            if !tin.contains(h) {
                return Err(format!("handler for the unlisted topic {h:?}"));
            }
        }
        // the built-in messages: paths of standard_icd, which are part of the protocol
        let mut ins: Vec<Tp> = vec![("u32", "postcard-rpc/ping"), ("()", "postcard-rpc/schemas/get")];
        let mut outs: Vec<Tp> = vec![
            ("u32", "postcard-rpc/ping"),
            ("SchemaTotals", "postcard-rpc/schemas/get"),
            ("SchemaData", "postcard-rpc/schema/data"),
            ("str", "postcard-rpc/logging"),
            ("WireError", "error"),
        ];
        ins.extend(eps.iter().map(|e| (e.0, e.2)));
        ins.extend(&tin);
        outs.extend(eps.iter().map(|e| (e.1, e.2)));
        outs.extend(&tout);
        for (what, l) in [("receives", ins), ("sends", outs)] {
            for i in 0..l.len() {
                if let Some(j) = (0..i).find(|j| l[*j] == l[i]) {
                    return Err(format!("two messages it {what} have one key: {:?} (number {j} and {i})", l[i]));
                }
            }
        }
        Ok(())
    }
    fn show(&self) -> String {
        let l = |v: &[(Ep, bool)]| v.iter().map(|(e, o)| format!("{e:?}{}", if *o { "" } else { " off" })).collect::<Vec<_>>().join(", ");
        let t = |v: &[(Tp, bool)]| v.iter().map(|(e, o)| format!("{e:?}{}", if *o { "" } else { " off" })).collect::<Vec<_>>().join(", ");
        format!(
            "endpoints [{}], handlers {:?}; topics in [{}], handlers {:?}; topics out [{}]",
            l(&self.eps),
            self.ep_handlers,
            t(&self.tin),
            self.tin_handlers,
            t(&self.tout)
        )
    }
    fn module(&self) -> String {
        let mut s = String::from("use crate::common::*;\n");
        let cfg = |o: &bool| if *o { "cfg(all())" } else { "cfg(any())" };
        let mixed = |o: Vec<bool>| o.contains(&false);
        let ce = mixed(self.eps.iter().map(|x| x.1).collect());
        let _ = writeln!(s, "mod eps {{ use super::*;\nendpoints! {{ list = EPS;\n| EndpointTy | RequestTy | ResponseTy | Path |{}\n| --- | --- | --- | --- |{}", if ce { " Cfg |" } else { "" }, if ce { " --- |" } else { "" });
        for (i, (e, o)) in self.eps.iter().enumerate() {
            let _ = writeln!(s, "| L{i} | {} | {} | {:?} |{}", e.0, e.1, e.2, if ce { format!(" {} |", cfg(o)) } else { String::new() });
        }
        s += "} }\nuse eps::EPS;\n";
        for (list, dir, v) in [("TIN", "ToServer", &self.tin), ("TOUT", "ToClient", &self.tout)] {
            let ct = mixed(v.iter().map(|x| x.1).collect());
            let _ = writeln!(s, "mod l_{list} {{ use super::*;\ntopics! {{ list = {list}; direction = TopicDirection::{dir};\n| TopicTy | MessageTy | Path |{}\n| --- | --- | --- |{}", if ct { " Cfg |" } else { "" }, if ct { " --- |" } else { "" });
            for (i, (t, o)) in v.iter().enumerate() {
                let _ = writeln!(s, "| M{i} | {} | {:?} |{}", t.0, t.1, if ct { format!(" {} |", cfg(o)) } else { String::new() });
            }
            let _ = writeln!(s, "}} }}\nuse l_{list}::{list};");
        }
        s += "define_dispatch! {\n app: App; spawn_fn: spawn_fn; tx_impl: WireTxImpl; spawn_impl: WireSpawnImpl; context: Ctx;\n endpoints: { list: EPS;\n| EndpointTy | kind | handler |\n| --- | --- | --- |\n";
        // the three kinds of handler by turns
        let kind = |k: usize| [("blocking", "b"), ("async", "a"), ("spawn", "s")][(k + self.eps.len() + self.tin.len()) % 3];
        for (k, h) in self.ep_handlers.iter().enumerate() {
            let n = EPS.iter().position(|e| e == h).unwrap();
            let (kind, f) = kind(k);
            let _ = writeln!(s, "| E{n} | {kind} | he{f}{n} |");
        }
        s += "};\n topics_in: { list: TIN;\n| TopicTy | kind | handler |\n| --- | --- | --- |\n";
        for (k, h) in self.tin_handlers.iter().enumerate() {
            let n = TPS.iter().position(|e| e == h).unwrap();
            let (kind, f) = kind(k);
            let _ = writeln!(s, "| T{n} | {kind} | ht{f}{n} |");
        }
        s += "};\n topics_out: { list: TOUT; };\n}\n";
        s += "pub fn go() -> (VarKeyKind, usize) { let a = App::new(Ctx, ChannelWireSpawn); (a.min_key_len(), a.device_map.endpoints.len()) }\n";
        s
    }
}

/// One path, every pair of types.
const X: [Ep; 9] = [
    ("u8", "u8", "p/x"),
    ("u8", "u16", "p/x"),
    ("u8", "u64", "p/x"),
    ("u16", "u8", "p/x"),
    ("u16", "u16", "p/x"),
    ("u16", "u64", "p/x"),
    ("u64", "u8", "p/x"),
    ("u64", "u16", "p/x"),
    ("u64", "u64", "p/x"),
];
const XT: [Tp; 3] = [("u8", "p/x"), ("u16", "p/x"), ("u64", "p/x")];

const EPS: [Ep; 20] = [A, B, C, A_RESP, A_REQ, S, PING, ERR, ERR_IN, PING2, PING3, X[0], X[1], X[2], X[3], X[4], X[5], X[6], X[7], X[8]];
const TPS: [Tp; 7] = [T, U, V, T2, XT[0], XT[1], XT[2]];

fn common() -> String {
    let mut s = String::from(
        "pub use postcard_rpc::header::{VarHeader, VarKeyKind};
pub use postcard_rpc::server::impls::test_channels::dispatch_impl::*;
pub use postcard_rpc::server::impls::test_channels::ChannelWireSpawn;
pub use postcard_rpc::server::{Dispatch, Sender, SpawnContext};
pub use postcard_rpc::standard_icd::WireError;
pub use postcard_rpc::{define_dispatch, endpoints, topics, TopicDirection};
pub struct Ctx;
impl SpawnContext for Ctx {
    type SpawnCtxt = ();
    fn spawn_ctxt(&mut self) {}
}
endpoints! { list = ALL; omit_std = true;\n| EndpointTy | RequestTy | ResponseTy | Path |\n| --- | --- | --- | --- |\n",
    );
    for (i, e) in EPS.iter().enumerate() {
        let _ = writeln!(s, "| E{i} | {} | {} | {:?} |", e.0, e.1, e.2);
    }
    s += "}\ntopics! { list = ALL_T; direction = TopicDirection::ToServer;\n| TopicTy | MessageTy | Path |\n| --- | --- | --- |\n";
    for (i, e) in TPS.iter().enumerate() {
        let _ = writeln!(s, "| T{i} | {} | {:?} |", e.0, e.1);
    }
    s += "}\n";
    for (i, e) in EPS.iter().enumerate() {
        let _ = writeln!(s, "pub fn heb{i}(_c: &mut Ctx, _h: VarHeader, _v: {}) -> {} {{ todo!() }}", e.0, e.1);
        let _ = writeln!(s, "pub async fn hea{i}(_c: &mut Ctx, _h: VarHeader, _v: {}) -> {} {{ todo!() }}", e.0, e.1);
        let _ = writeln!(s, "pub async fn hes{i}(_c: (), _h: VarHeader, _v: {}, _o: Sender<WireTxImpl>) {{}}", e.0);
    }
    for (i, e) in TPS.iter().enumerate() {
        let _ = writeln!(s, "pub fn htb{i}(_c: &mut Ctx, _h: VarHeader, _v: {}, _o: &Sender<WireTxImpl>) {{}}", e.0);
        let _ = writeln!(s, "pub async fn hta{i}(_c: &mut Ctx, _h: VarHeader, _v: {}, _o: &Sender<WireTxImpl>) {{}}", e.0);
        let _ = writeln!(s, "pub async fn hts{i}(_c: (), _h: VarHeader, _v: {}, _o: Sender<WireTxImpl>) {{}}", e.0);
    }
    s
}

/// All orderings of all subsets of up to `top` elements.
fn orders<X: Copy + PartialEq>(u: &[X], top: usize) -> Vec<Vec<X>> {
    let mut all = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..top {
        let mut next = vec![];
        for l in &last {
            for x in u {
                if !l.contains(x) {
                    let mut m: Vec<X> = l.clone();
                    m.push(*x);
                    next.push(m);
                }
            }
        }
        all.extend(next.clone());
        last = next;
    }
    all
}

/// Programs built side by side.
const BINS: usize = 24;

/// The definitions that the compiler refuses, with what it says.
fn refused(defs: &[Def]) -> BTreeMap<usize, String> {
    let dir = "/verif/target/probe25".to_string();
    let src = format!("{dir}/src");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&src).expect("scratch");
    let here = std::env::var("VP_CONST_DIR").unwrap_or("/verif/h-const".into());
    let toml = std::fs::read_to_string(format!("{here}/Cargo.toml")).expect("Cargo.toml");
    let deps = &toml[toml.find("[dependencies]").unwrap()..toml.find("[features]").unwrap()];
    let rest = &toml[toml.find("[patch").unwrap()..];
    let fix = |s: &str| s.replace("path = \"../", &format!("path = \"{here}/../"));
    let mut t = format!("[package]\nname = \"probe25\"\nversion = \"0.1.0\"\nedition = \"2021\"\npublish = false\n[workspace]\n{}\n{}\n[profile.release.package.probe25]\nopt-level = 0\ncodegen-units = 1\ndebug-assertions = false\noverflow-checks = false\n", fix(deps), fix(rest));
    for k in 0..BINS {
        let _ = write!(t, "[[bin]]\nname = \"probe25-{k}\"\npath = \"src/b{k}.rs\"\n");
    }
    std::fs::write(format!("{dir}/Cargo.toml"), t).unwrap();
    let lock = std::fs::read_to_string(format!("{here}/Cargo.lock")).unwrap();
    std::fs::write(format!("{dir}/Cargo.lock"), lock.replace("name = \"h-const\"", "name = \"probe25\"")).unwrap();
    std::fs::write(format!("{src}/common.rs"), common()).unwrap();
    for (i, d) in defs.iter().enumerate() {
        std::fs::write(format!("{src}/m{i}.rs"), d.module()).unwrap();
    }
    let mut bad: BTreeMap<usize, String> = BTreeMap::new();
    // errors of later stages of the compiler only show once those of earlier ones are gone
    loop {
        for k in 0..BINS {
            let mut main = String::from("mod common;\n");
            let mine = || (0..defs.len()).filter(|i| i % BINS == k && !bad.contains_key(i));
            for i in mine() {
                let _ = writeln!(main, "mod m{i};");
            }
            main += "fn main() {\n";
            for i in mine() {
                let _ = writeln!(main, "println!(\"{i} {{:?}}\", m{i}::go());");
            }
            main += "}\n";
            let f = format!("{src}/b{k}.rs");
            if std::fs::read_to_string(&f).ok().as_ref() != Some(&main) {
                std::fs::write(f, main).unwrap();
            }
        }
        let done = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
        let d = done.clone();
        let beat = std::thread::spawn(move || {
            while !d.load(std::sync::atomic::Ordering::Relaxed) {
                vp_rt::report::beat();
                std::thread::sleep(std::time::Duration::from_millis(200));
            }
        });
        let o = std::process::Command::new("cargo")
            .args(["build", "--offline", "--release", "--keep-going", "--message-format=json"])
            .current_dir(&dir)
            .env("CARGO_TARGET_DIR", "/verif/target")
            .env("RUSTFLAGS", "--cfg vp_hooks -Awarnings")
            .output()
            .expect("cargo");
        done.store(true, std::sync::atomic::Ordering::Relaxed);
        let _ = beat.join();
        if o.status.success() {
            break;
        }
        let before = bad.len();
        let out = String::from_utf8_lossy(&o.stdout);
        for l in out.lines().filter(|l| l.contains("\"compiler-message\"") && l.contains("\"level\":\"error\"")) {
            // the module named anywhere in the places the message points at
            let mut at = BTreeSet::new();
            for p in l.split("\"file_name\":\"src/m").skip(1) {
                if let Some(n) = p.split(".rs\"").next().and_then(|n| n.parse::<usize>().ok()) {
                    at.insert(n);
                }
            }
            let text = l.split("\"rendered\":\"").nth(1).unwrap_or("").split("\\n").next().unwrap_or("").to_string();
            for i in at {
                bad.entry(i).or_insert(text.clone());
            }
        }
        if bad.len() == before {
            // not a message about a definition: the program as such cannot be built
            eprintln!("the probe program does not build:\n{}\n{}", out.lines().filter(|l| l.contains("\"error\"")).take(2).collect::<String>(), String::from_utf8_lossy(&o.stderr));
            std::process::exit(2);
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    bad
}

fn judge(r: &mut Report, name: &str, first: usize, defs: &[Def], bad: &BTreeMap<usize, String>) {
    r.cases(name, |c| {
        for (i, d) in defs.iter().enumerate() {
            c.at(|| d.show());
            let want = d.consistent();
            match (&want, bad.get(&(first + i))) {
                (Ok(()), Some(m)) => panic!("a consistent definition is refused ({m}): {}", d.show()),
                (Err(m), None) => panic!("an inconsistent definition is accepted ({m}): {}", d.show()),
                _ => {}
            }
            c.hit(i as u64);
            c.sample(|| format!("{}: {}", d.show(), if want.is_ok() { "accepted" } else { "refused" }));
        }
    });
}

pub fn run(a: Args) {
    let mut r = Report::new(a, "exhaustive", "a definition is consistent if every handler's message is listed (path and types) and no two messages of one direction, built-in ones included, have path and type in common");
    let t = r.thorough();
    let mut groups: Vec<(&str, Vec<Def>)> = vec![];
    // handlers against the endpoint list, in every order
    let lists = if t { orders(&[A, B, C, S], 3) } else { orders(&[A, B, C], 3) };
    let mut defs = vec![];
    for l in &lists {
        for h in &lists {
            if !t && l.len() == 3 && h.len() == 3 && l != &[A, B, C] {
                continue;
            }
            defs.push(Def { eps: on(l), ep_handlers: h.clone(), ..Default::default() });
        }
    }
    // listed under another request or response type
    for v in [A_RESP, A_REQ] {
        for l in [vec![A], vec![v], vec![A, B], vec![B, A], vec![v, B], vec![B, v], vec![v, B, C], vec![C, B, v]] {
            for h in [vec![A], vec![v], vec![v, B], vec![B, v], vec![A, B], vec![B, A]] {
                if h.contains(&B) && !l.contains(&B) {
                    continue;
                }
                defs.push(Def { eps: on(&l), ep_handlers: h, ..Default::default() });
            }
        }
    }
    groups.push(("endpoint handlers x endpoint lists", defs));
    // the same for incoming topics
    let lists = orders(&[T, U, V], 3);
    let mut defs = vec![];
    for l in &lists {
        for h in &lists {
            if !t && l.len() == 3 && h.len() == 3 && l != &[T, U, V] {
                continue;
            }
            defs.push(Def { tin: on(l), tin_handlers: h.clone(), ..Default::default() });
        }
    }
    for l in [vec![T], vec![T2], vec![T2, U], vec![U, T2], vec![T, T2], vec![T2, T]] {
        for h in [vec![T], vec![T2], vec![U, T], vec![T, U], vec![T2, U], vec![U, T2]] {
            if h.contains(&U) && !l.contains(&U) {
                continue;
            }
            defs.push(Def { tin: on(&l), tin_handlers: h, ..Default::default() });
        }
    }
    // being listed as a topic of the other direction does not count
    for l in &[vec![T], vec![U, T]] {
        defs.push(Def { tout: on(l), tin_handlers: vec![T], ..Default::default() });
        defs.push(Def { tin: on(&[U]), tout: on(l), tin_handlers: vec![U, T], ..Default::default() });
    }
    groups.push(("topic handlers x topic lists", defs));
    // one path: a message listed in one place or direction only is not listed in another
    let mut defs = vec![];
    for h in X {
        for l in X {
            defs.push(Def { eps: on(&[l]), ep_handlers: vec![h], ..Default::default() });
            defs.push(Def { eps: on(&[B, l]), ep_handlers: vec![h, B], ..Default::default() });
        }
        for t in XT {
            for u in XT {
                defs.push(Def { tin: on(&[t]), tout: on(&[u]), ep_handlers: vec![h], ..Default::default() });
            }
        }
    }
    for h in XT {
        for l in X {
            defs.push(Def { eps: on(&[l]), tin_handlers: vec![h], ..Default::default() });
        }
        for l in XT {
            defs.push(Def { tout: on(&[l]), tin_handlers: vec![h], ..Default::default() });
            defs.push(Def { tin: on(&[l]), tin_handlers: vec![h], ..Default::default() });
            for m in XT {
                defs.push(Def { tin: on(&[l]), tout: on(&[m]), tin_handlers: vec![h], ..Default::default() });
            }
        }
    }
    groups.push(("one path, every place", defs));
    // entries switched off by their Cfg column are not listed
    let mut defs = vec![];
    for off in 0..8u32 {
        let eps: Vec<_> = [A, B, C].iter().enumerate().map(|(i, e)| (*e, off >> i & 1 == 0)).collect();
        let tin: Vec<_> = [T, U, V].iter().enumerate().map(|(i, e)| (*e, off >> i & 1 == 0)).collect();
        for hs in 0..8u32 {
            let eh: Vec<_> = [A, B, C].iter().enumerate().filter(|(i, _)| hs >> i & 1 == 1).map(|x| *x.1).collect();
            let th: Vec<_> = [T, U, V].iter().enumerate().filter(|(i, _)| hs >> i & 1 == 1).map(|x| *x.1).collect();
            defs.push(Def { eps: eps.clone(), ep_handlers: eh, ..Default::default() });
            defs.push(Def { tin: tin.clone(), tin_handlers: th, ..Default::default() });
        }
        // a second entry with the same key is harmless while switched off
        let twice: Vec<_> = [A, B, A].iter().enumerate().map(|(i, e)| (*e, off >> i & 1 == 0)).collect();
        defs.push(Def { eps: twice, ..Default::default() });
        let twice: Vec<_> = [T, U, T].iter().enumerate().map(|(i, e)| (*e, off >> i & 1 == 0)).collect();
        defs.push(Def { tin: twice.clone(), ..Default::default() });
        defs.push(Def { tout: twice, ..Default::default() });
    }
    groups.push(("entries switched off", defs));
    // two messages with one key, everywhere
    let mut defs = vec![];
    let rest: [Ep; 4] = [C, S, ("u8", "u8", "p/m1"), ("u8", "u8", "p/m2")];
    for n in 2..=if t { 6 } else { 5 } {
        for i in 0..n {
            for j in 0..n {
                if i == j {
                    continue;
                }
                for (x, y) in [(A, A), (A, A_RESP), (A, A_REQ), (A_REQ, A_RESP), (A, B)] {
                    if x == y && i > j {
                        continue;
                    }
                    let mut other = rest.into_iter();
                    let l: Vec<Ep> = (0..n).map(|k| if k == i { x } else if k == j { y } else { other.next().unwrap() }).collect();
                    defs.push(Def { eps: on(&l), ..Default::default() });
                }
            }
        }
    }
    let ep_of = |t: Tp, req: bool| -> Ep { if req { (t.0, "i8", t.1) } else { ("i8", t.0, t.1) } };
    for n in 1..=4usize {
        for pos in 0..n {
            let names = ["p/1", "p/2", "p/3", "p/4"];
            let eps: Vec<Ep> = (0..n).map(|k| ("u8", "u16", names[k])).collect();
            let tps: Vec<Tp> = (0..n).map(|k| ("u32", ["q/1", "q/2", "q/3", "q/4"][k])).collect();
            for other in 0..n {
                for dir_in in [true, false] {
                    for list_in in [true, false] {
                        // the topic at `pos` has the key of the endpoint at `other`, in the same direction or the other
                        let mut tp = tps.clone();
                        let mut ep = eps.clone();
                        ep[other] = ep_of(("u64", "p/x"), dir_in);
                        tp[pos] = ("u64", "p/x");
                        let mut d = Def { eps: on(&ep), ..Default::default() };
                        if list_in {
                            d.tin = on(&tp)
                        } else {
                            d.tout = on(&tp)
                        }
                        defs.push(d);
                    }
                }
                // a topic may be listed once for each direction
                let mut o: Vec<Tp> = (0..n).map(|k| ("u32", ["r/1", "r/2", "r/3", "r/4"][k])).collect();
                o[other] = tps[pos];
                defs.push(Def { tin: on(&tps), tout: on(&o), ..Default::default() });
                if other > pos {
                    for i in [true, false] {
                        let mut tp = tps.clone();
                        tp[other] = tp[pos];
                        let mut d = Def::default();
                        if i {
                            d.tin = on(&tp)
                        } else {
                            d.tout = on(&tp)
                        }
                        defs.push(d);
                    }
                }
            }
            // the built-in messages
            for b in [PING, ERR, ERR_IN, PING2, PING3] {
                let mut ep = eps.clone();
                ep[pos] = b;
                defs.push(Def { eps: on(&ep), ..Default::default() });
            }
            for b in [("u32", "postcard-rpc/ping"), ("WireError", "error"), ("u8", "error"), ("u8", "postcard-rpc/ping")] {
                let mut tp = tps.clone();
                tp[pos] = b;
                defs.push(Def { tin: on(&tp), ..Default::default() });
                defs.push(Def { tout: on(&tp), ..Default::default() });
            }
        }
    }
    groups.push(("coinciding keys", defs));
    let all: Vec<Def> = groups.iter().flat_map(|g| g.1.clone()).collect();
    let bad = refused(&all);
    let mut first = 0;
    for (name, defs) in &groups {
        judge(&mut r, name, first, defs, &bad);
        first += defs.len();
    }
    r.assume("a definition counts as refused if building a program that contains it fails with a message pointing into it");
    r.finish()
}
