//! Finds the colliding paths used by h-const and h-server (their sources have the results).
//! cargo run --release --offline
use postcard_rpc::standard_icd::*;
use postcard_rpc::{Endpoint, Key, Topic};
use postcard_schema::Schema;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;

#[derive(Schema)]
#[allow(dead_code)]
struct Ans {
    who: u8,
    what: u32,
}

fn red(k: Key, n: usize) -> u64 {
    let b = k.to_bytes();
    let s = 8 / n;
    let mut v = 0u64;
    for i in 0..n {
        v = v << 8 | b[i * s..(i + 1) * s].iter().fold(0u8, |a, x| a ^ x) as u64;
    }
    v
}

fn k<T: Schema>(p: &str) -> Key {
    Key::for_path::<T>(p)
}

fn needed(ks: &[Key]) -> usize {
    for n in [1, 2, 4, 8] {
        let mut v: Vec<u64> = ks.iter().map(|k| red(*k, n)).collect();
        v.sort();
        let l = v.len();
        v.dedup();
        if v.len() == l {
            return n;
        }
    }
    99
}

type F = fn(&str) -> Key;

/// two paths whose keys (of types fa, fb) collide at m bytes and not at 2m
fn pair(tag: &str, fa: F, fb: F, m: usize, ok: &dyn Fn(&str, &str) -> bool) -> (String, String) {
    let mut seen: HashMap<u64, Vec<String>> = HashMap::new();
    for i in 0..100_000_000u64 {
        let p = format!("{tag}/{i:x}");
        let kb = fb(&p);
        if let Some(v) = seen.get(&red(kb, m)) {
            for q in v {
                if red(fa(q), 2 * m) != red(kb, 2 * m) && ok(q, &p) {
                    return (q.clone(), p);
                }
            }
        }
        seen.entry(red(fa(&p), m)).or_default().push(p);
    }
    panic!()
}

/// a path whose key collides with `fixed` at m bytes and not at 2m
fn against(tag: &str, fa: F, fixed: Key, m: usize, ok: &(dyn Fn(&str) -> bool + Sync)) -> String {
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let res = Mutex::new(None);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| {
                while !stop.load(Relaxed) {
                    let b = next.fetch_add(1 << 12, Relaxed);
                    for i in b..b + (1 << 12) {
                        let p = format!("{tag}/{i:x}");
                        let ka = fa(&p);
                        if red(ka, m) == red(fixed, m) && red(ka, 2 * m) != red(fixed, 2 * m) && ok(&p) {
                            *res.lock().unwrap() = Some(p);
                            stop.store(true, Relaxed);
                            return;
                        }
                    }
                }
            });
        }
    });
    res.into_inner().unwrap().unwrap()
}

fn ins(eps: &[&str], tins: &[&str]) -> Vec<Key> {
    let mut v = vec![PingEndpoint::REQ_KEY, GetAllSchemasEndpoint::REQ_KEY];
    v.extend(eps.iter().map(|p| k::<u8>(p)));
    v.extend(tins.iter().map(|p| k::<u32>(p)));
    v
}
fn outs(eps: &[&str], touts: &[&str]) -> Vec<Key> {
    let mut v = vec![PingEndpoint::RESP_KEY, GetAllSchemasEndpoint::RESP_KEY, GetAllSchemaDataTopic::TOPIC_KEY, LoggingTopic::TOPIC_KEY, ERROR_KEY];
    v.extend(eps.iter().map(|p| k::<u16>(p)));
    v.extend(touts.iter().map(|p| k::<u64>(p)));
    v
}

fn c12() {
    // C12: pairs over Ans for the dispatchers of each length; requests/topics with Ans
    let a: F = k::<Ans>;
    for m in [1usize, 2, 4] {
        let p = pair(&format!("q{}", 2 * m), a, a, m, &|_, _| true);
        println!("    C12 endpoints colliding at {m}: {} {}", p.0, p.1);
        let p = pair(&format!("p{}", 2 * m), a, a, m, &|_, _| true);
        println!("    C12 topics colliding at {m}: {} {}", p.0, p.1);
    }
}

#[derive(Schema)]
#[allow(dead_code)]
enum Shape { Dot, Line(u16), Box { w: u8, h: u8 } }
#[derive(Schema)]
#[allow(dead_code)]
struct Fussy(pub u8);

/// a prefix under which h-server's device d1 needs one byte only
fn d1() {
    for i in 0..100000 {
        let s = |x: &str| format!("{i}/{x}");
        let a: F = k::<Ans>;
        let ins = [PingEndpoint::REQ_KEY, GetAllSchemasEndpoint::REQ_KEY, a(&s("eb")), k::<u32>(&s("ea")), k::<Shape>(&s("es")), k::<u8>(&s("ef")), a("q1/a"), a("q1/b"), a(&s("tb")), k::<Shape>(&s("ta")), k::<u16>(&s("ts")), a("p1/a"), a("p1/b")];
        let outs = [PingEndpoint::RESP_KEY, GetAllSchemasEndpoint::RESP_KEY, GetAllSchemaDataTopic::TOPIC_KEY, LoggingTopic::TOPIC_KEY, ERROR_KEY, a(&s("eb")), a(&s("ea")), k::<u64>(&s("es")), k::<Fussy>(&s("ef")), a("q1/a"), a("q1/b"), a(&s("to"))];
        if needed(&ins) == 1 && needed(&outs) == 1 {
            println!("    prefix for d1: {i}/");
            return;
        }
    }
}

fn main() {
    c12();
    d1();
    if std::env::args().nth(1).is_some() { return }
    let (rq, rs, ti, to): (F, F, F, F) = (k::<u8>, k::<u16>, k::<u32>, k::<u64>);
    // all other pairs must be distinct at m, and at 1 byte in the other direction
    let good = |m: usize, eps: &[&str], tins: &[&str], touts: &[&str], drop_in: Option<Key>, drop_out: Option<Key>| {
        let mut i = ins(eps, tins);
        let mut o = outs(eps, touts);
        if let Some(d) = drop_in {
            let x = i.iter().position(|y| *y == d).unwrap();
            i.remove(x);
        }
        if let Some(d) = drop_out {
            let x = o.iter().position(|y| *y == d).unwrap();
            o.remove(x);
        }
        let _ = m;
        needed(&i) == 1 && needed(&o) == 1
    };
    for m in [1usize, 2, 4] {
        let g = |eps: &[&str], tins: &[&str], touts: &[&str], di: Option<Key>, d: Option<Key>| good(m, eps, tins, touts, di, d);
        let show = |name: &str, eps: &[&str], ti: &[&str], to: &[&str]| {
            println!("    {name}{m}: {} / [{}] / [{}] / [{}]", 2 * m, eps.join(" "), ti.join(" "), to.join(" "))
        };
        let p = pair("rr", rq, rq, m, &|a, b| g(&[a, b], &[], &[], Some(rq(a)), None));
        show("req_req", &[&p.0, &p.1], &[], &[]);
        let p = pair("rt", rq, ti, m, &|a, b| g(&[a], &[b], &[], Some(rq(a)), None));
        show("req_tin", &[&p.0], &[&p.1], &[]);
        let p = pair("tt", ti, ti, m, &|a, b| g(&[], &[a, b], &[], Some(ti(a)), None));
        show("tin_tin", &[], &[&p.0, &p.1], &[]);
        let p = pair("oo", rs, rs, m, &|a, b| g(&[a, b], &[], &[], None, Some(rs(a))));
        show("resp_resp", &[&p.0, &p.1], &[], &[]);
        let p = pair("ot", rs, to, m, &|a, b| g(&[a], &[], &[b], None, Some(rs(a))));
        show("resp_tout", &[&p.0], &[], &[&p.1]);
        let p = pair("uu", to, to, m, &|a, b| g(&[], &[], &[a, b], None, Some(to(a))));
        show("tout_tout", &[], &[], &[&p.0, &p.1]);
        let q = |f: F, fixed: Key, e: bool, tin: bool, out: bool, nm: &str| {
            let ok = |p: &str| {
                let (d, d2) = if out { (None, Some(fixed)) } else { (Some(fixed), None) };
                if e { g(&[p], &[], &[], d, d2) } else if tin { g(&[], &[p], &[], d, d2) } else { g(&[], &[], &[p], d, d2) }
            };
            if m == 4 && !matches!(nm, "req_ping" | "resp_error") {
                return; // each takes 2^32 hashes
            }
            let p = against(nm, f, fixed, m, &ok);
            if e { show(nm, &[&p], &[], &[]) } else if tin { show(nm, &[], &[&p], &[]) } else { show(nm, &[], &[], &[&p]) }
        };
        q(rq, PingEndpoint::REQ_KEY, true, false, false, "req_ping");
        q(rq, GetAllSchemasEndpoint::REQ_KEY, true, false, false, "req_schemas");
        q(ti, PingEndpoint::REQ_KEY, false, true, false, "tin_ping");
        q(rs, PingEndpoint::RESP_KEY, true, false, true, "resp_ping");
        q(rs, GetAllSchemasEndpoint::RESP_KEY, true, false, true, "resp_schemas");
        q(rs, LoggingTopic::TOPIC_KEY, true, false, true, "resp_log");
        q(to, LoggingTopic::TOPIC_KEY, false, false, true, "tout_log");
        q(to, GetAllSchemaDataTopic::TOPIC_KEY, false, false, true, "tout_data");
        q(rs, ERROR_KEY, true, false, true, "resp_error");
        q(to, ERROR_KEY, false, false, true, "tout_error");
    }
    for m in [1usize, 2] {
        let g = |e: &[&str], a: &[&str], b: &[&str]| good(1, e, a, b, None, None);
        let p = pair("x1", rq, rs, m, &|a, b| g(&[a, b], &[], &[]));
        println!("    cross_req_resp{m}: 1 / [{} {}] / [] / []", p.0, p.1);
        let p = pair("x2", ti, to, m, &|a, b| g(&[], &[a], &[b]));
        println!("    cross_tin_tout{m}: 1 / [] / [{}] / [{}]", p.0, p.1);
        let p = pair("x3", rq, to, m, &|a, b| g(&[a], &[], &[b]));
        println!("    cross_req_tout{m}: 1 / [{}] / [] / [{}]", p.0, p.1);
        let p = pair("x4", rs, ti, m, &|a, b| g(&[a], &[b], &[]));
        println!("    cross_resp_tin{m}: 1 / [{}] / [{}] / []", p.0, p.1);
    }
}
