//! C12: every frame gets the right handling. C13: the run loop under faults.
use crate::common::*;
use crate::icd::*;
use crate::mock::*;
use postcard_rpc::header::VarKeyKind;
use postcard_rpc::server::{Dispatch, Server, ServerError};
use postcard_rpc::standard_icd::*;
use postcard_rpc::{Endpoint, Key, Topic};
use std::sync::{Arc, Mutex};
use vp_rt::report::{Args, Cases, Report};
use vp_rt::{Config, Sim};

#[macro_export]
macro_rules! with_dev {
    ($n:expr, $log:expr, $sp:expr, |$app:ident, $keys:ident| $e:expr) => {
        match $n {
            1 => { let ($app, $keys) = (d1::app($log, $sp), d1::keys()); $e }
            2 => { let ($app, $keys) = (d2::app($log, $sp), d2::keys()); $e }
            4 => { let ($app, $keys) = (d4::app($log, $sp), d4::keys()); $e }
            _ => { let ($app, $keys) = (d8::app($log, $sp), d8::keys()); $e }
        }
    };
}

fn err_frame(n: usize, seq: &[u8], e: &WireError) -> Vec<u8> {
    encode(&Hdr { key: key_n(ERROR_KEY, n), seq: seq.to_vec() }, &postcard::to_stdvec(e).unwrap())
}

/// What one incoming frame must cause.
#[derive(Debug, PartialEq, Clone)]
pub struct Want {
    /// handler, payload
    pub call: Option<(&'static str, String)>,
    pub hdr: Option<Hdr>,
    /// replies sent by the dispatcher itself, as attempts: (frame, is it a handler's reply that
    /// falls back to an error)
    pub now: Vec<Vec<u8>>,
    /// replies sent by a spawned handler
    pub later: Vec<Vec<u8>>,
    pub schemas: bool,
}

/// `n`: the dispatcher's key length, `kn`: the length it sends with.
pub fn want(keys: &Keys, n: usize, kn: usize, frame: &[u8], spawn_fail: bool) -> Want {
    let mut w = Want { call: None, hdr: None, now: vec![], later: vec![], schemas: false };
    let Some((h, body)) = decode(frame) else { return w };
    w.hdr = Some(h.clone());
    let reply = |k: Key, b: &[u8]| encode(&Hdr { key: key_n(k, kn), seq: h.seq.clone() }, b);
    if h.key.len() < n {
        w.now.push(err_frame(kn, &h.seq, &WireError::KeyTooSmall));
        return w;
    }
    let st = h.key.len() / n;
    let key: Vec<u8> = (0..n).map(|i| h.key[i * st..(i + 1) * st].iter().fold(0, |a, b| a ^ b)).collect();
    if key == key_n(PingEndpoint::REQ_KEY, n) {
        match postcard::from_bytes::<u32>(body) {
            Ok(v) => w.now.push(reply(PingEndpoint::RESP_KEY, &postcard::to_stdvec(&v).unwrap())),
            Err(_) => w.now.push(err_frame(kn, &h.seq, &WireError::DeserFailed)),
        }
        return w;
    }
    if key == key_n(GetAllSchemasEndpoint::REQ_KEY, n) {
        w.schemas = true;
        return w;
    }
    for i in 0..6 {
        if key == key_n(keys.req[i], n) {
            match ep_expect(i, body) {
                None => w.now.push(err_frame(kn, &h.seq, &WireError::DeserFailed)),
                Some((p, r)) => {
                    if EP_NAMES[i] == "es" {
                        if spawn_fail {
                            w.now.push(err_frame(kn, &h.seq, &WireError::FailedToSpawn));
                        } else {
                            w.call = Some(("es", p));
                            w.later.push(reply(keys.resp[i], &r.unwrap()));
                        }
                    } else {
                        w.call = Some((EP_NAMES[i], p));
                        match r {
                            Some(r) => w.now.push(reply(keys.resp[i], &r)),
                            None => w.now.push(err_frame(kn, &h.seq, &WireError::SerFailed)),
                        }
                    }
                }
            }
            return w;
        }
    }
    for i in 0..5 {
        if key == key_n(keys.tin[i], n) {
            if let Some(p) = tp_expect(i, body) {
                if !(TP_NAMES[i] == "ts" && spawn_fail) {
                    w.call = Some((TP_NAMES[i], p));
                }
            }
            return w;
        }
    }
    w.now.push(err_frame(kn, &h.seq, &WireError::UnknownKey));
    w
}

fn check_schemas(got: &[Vec<u8>], n: usize, h: &Hdr, exact_len: Option<usize>) -> usize {
    // topic messages, then one reply with the request's sequence number
    let mut i = 0;
    while i < got.len() {
        let (gh, b) = decode(&got[i]).expect("malformed frame");
        if gh.key == key_n(GetAllSchemaDataTopic::TOPIC_KEY, n) {
            i += 1;
            continue;
        }
        assert_eq!(gh.key, key_n(GetAllSchemasEndpoint::RESP_KEY, n), "unexpected frame in the schema report");
        assert_eq!(gh.seq, h.seq, "the schema reply does not carry the request's sequence number");
        let t: SchemaTotals = postcard::from_bytes(b).unwrap();
        assert_eq!((t.types_sent + t.endpoints_sent + t.topics_in_sent + t.topics_out_sent) as usize, i, "totals");
        assert_eq!(t.errors, 0);
        if let Some(l) = exact_len {
            assert_eq!(i, l);
        }
        return i + 1;
    }
    panic!("no reply to the schema request");
}

/// Run frames through one server instance and compare.
fn frames(c: &mut Cases, n: usize, kn: usize, fs: &[Vec<u8>], spawn_fail: bool, slow: bool) {
    c.at(|| format!("dispatcher {n}, sending {kn}-byte keys, spawn_fail {spawn_fail}, frames {fs:02x?}"));
    let log: Log = Default::default();
    let sp = MSpawn::default();
    sp.0.lock().unwrap().fail = spawn_fail;
    let tx = MTx::default();
    tx.0.lock().unwrap().slow = slow;
    let rx = MRx::new(fs.iter().map(|f| RxEv::Frame(f.clone())).collect());
    let keys = with_dev!(n, &log, &sp, |app, keys| {
        let mut srv = Server::new(tx.clone(), rx.clone(), vec![0x5a; 256], app, kk(kn));
        match drive(srv.run()) {
            ServerError::RxFatal(e) => assert_eq!(e.id, usize::MAX),
            ServerError::TxFatal(e) => panic!("run ended with {e:?}"),
        }
        keys
    });
    assert_eq!(rx.taken(), fs.len());
    let ctxs = CTXS.with(|c| c.replace(0));
    let pre_spawn = tx.ok_frames();
    sp.run_all();
    let all = tx.ok_frames();
    let wants: Vec<Want> = fs.iter().map(|f| want(&keys, n, kn, f, spawn_fail)).collect();
    // replies
    let mut i = 0;
    for w in &wants {
        if w.schemas {
            i += check_schemas(&pre_spawn[i..], kn, w.hdr.as_ref().unwrap(), None);
            continue;
        }
        for f in &w.now {
            assert_eq!(pre_spawn.get(i), Some(f), "reply {i}, expected for {w:?}");
            i += 1;
        }
    }
    assert_eq!(pre_spawn.len(), i, "surplus replies: {:02x?}", &pre_spawn[i..]);
    let later: Vec<Vec<u8>> = wants.iter().flat_map(|w| w.later.clone()).collect();
    assert_eq!(&all[i..], &later[..], "replies of spawned handlers");
    // handlers: immediate ones in order, then the spawned ones
    let exp: Vec<_> = wants
        .iter()
        .filter_map(|w| w.call.clone().map(|(a, p)| (a, w.hdr.clone().unwrap().key, w.hdr.clone().unwrap().seq, p)))
        .collect();
    let spawned = |n: &str| n == "es" || n == "ts";
    if !spawn_fail {
        assert_eq!(ctxs, exp.iter().filter(|e| spawned(e.0)).count(), "contexts made for spawned handlers");
    }
    let mut order: Vec<_> = exp.iter().filter(|e| !spawned(e.0)).cloned().collect();
    order.extend(exp.iter().filter(|e| spawned(e.0)).cloned());
    assert_eq!(*log.lock().unwrap(), order, "handlers run");
    c.bulk(1);
}

fn bodies(name: &str) -> Vec<Vec<u8>> {
    fn ser<T: serde::Serialize>(t: &T) -> Vec<u8> {
        postcard::to_stdvec(t).unwrap()
    }
    let mut v: Vec<Vec<u8>> = match name {
        "eb" | "q1" | "q2" | "tb" | "p1" | "p2" => vec![
            ser(&Ans { who: 0, what: 0 }),
            ser(&Ans { who: 255, what: u32::MAX }),
            ser(&Ans { who: 7, what: 300 }),
        ],
        "ea" | "ping" => vec![ser(&0u32), ser(&127u32), ser(&128u32), ser(&u32::MAX)],
        "es" | "ta" => vec![ser(&Shape::Dot), ser(&Shape::Line(0x1234)), ser(&Shape::Box { w: 3, h: 255 })],
        "ef" => vec![vec![0], vec![1], vec![254], vec![255]],
        "ts" => vec![ser(&0u16), ser(&u16::MAX)],
        _ => vec![vec![1, 2, 3]],
    };
    let mut extra = vec![];
    for b in &v {
        for k in 0..b.len() {
            extra.push(b[..k].to_vec());
        }
        let mut b = b.clone();
        b.push(0x33);
        extra.push(b);
    }
    v.append(&mut extra);
    v.push(vec![]);
    v.push(vec![0xff; 3]);
    v.push(vec![0xff; 12]);
    v.push(vec![3, 1]);
    v.sort();
    v.dedup();
    v
}

fn in_keys(keys: &Keys) -> Vec<(&'static str, Key)> {
    let mut v: Vec<(&'static str, Key)> = vec![("ping", PingEndpoint::REQ_KEY), ("schemas", GetAllSchemasEndpoint::REQ_KEY)];
    for i in 0..6 {
        v.push((EP_NAMES[i], keys.req[i]));
    }
    for i in 0..5 {
        v.push((TP_NAMES[i], keys.tin[i]));
    }
    v
}

fn flip(k: Key, at: &[usize], d: u8) -> Key {
    let mut b = k.to_bytes();
    for a in at {
        b[*a] ^= d;
    }
    unsafe { Key::from_bytes(b) }
}

const SEQS: [u32; 12] = [0, 1, 0x7f, 0x80, 0xff, 0x100, 0x1234, 0x7fff, 0xffff, 0x1_0000, 0x89ab_cdef, u32::MAX];

pub fn seqs() -> Vec<(u32, usize)> {
    let mut v = vec![];
    for sn in [1usize, 2, 4] {
        for s in SEQS {
            if sn == 4 || (s as u64) < 1 << (8 * sn) {
                v.push((s, sn));
            }
        }
    }
    v
}

pub fn run(a: Args) {
    if a.prop == "C13" {
        return run13(a);
    }
    let mut r = Report::new(a, "model_checking", "one case per (dispatcher, configuration, frame sequence); all distinct");
    let th = r.thorough();
    for n in [1usize, 2, 4, 8] {
        r.cases(&format!("dispatcher {n}: its key length"), |c| {
            let log: Log = Default::default();
            let sp = MSpawn::default();
            let l: VarKeyKind = with_dev!(n, &log, &sp, |app, _k| app.min_key_len());
            assert_eq!(kk_len(l), n, "key length of the dispatcher");
            c.bulk(1);
        });
        let log: Log = Default::default();
        let sp = MSpawn::default();
        let keys = with_dev!(n, &log, &sp, |_app, k| k);
        r.cases(&format!("dispatcher {n}: every key x key length x sequence number x payload"), |c| {
            for (name, k) in in_keys(&keys) {
                for kl in [1usize, 2, 4, 8] {
                    for (s, sn) in seqs() {
                        for b in bodies(name) {
                                                        for sf in [false, true] {
                                frames(c, n, n, &[frame(k, kl, s, sn, &b)], sf, false);
                            }
                        }
                    }
                }
            }
            c.sample(|| format!("dispatcher {n}: all frames"));
        });
        r.cases(&format!("dispatcher {n}: unknown keys"), |c| {
            let mut ks: Vec<Key> = vec![ERROR_KEY, LoggingTopic::TOPIC_KEY, GetAllSchemaDataTopic::TOPIC_KEY, GetAllSchemasEndpoint::RESP_KEY];
            ks.extend(keys.resp);
            ks.extend(keys.tout);
            for (_, k) in in_keys(&keys) {
                for d in [1u8, 0x80, 0xff] {
                    for p in 0..8 {
                        ks.push(flip(k, &[p], d));
                        for q in p + 1..8 {
                            ks.push(flip(k, &[p, q], d));
                        }
                    }
                    ks.push(flip(k, &[0, 1, 2, 3, 4, 5, 6, 7], d));
                }
            }
            for k in ks {
                for kl in [1usize, 2, 4, 8] {
                    for b in [vec![], postcard::to_stdvec(&Ans { who: 3, what: 4 }).unwrap()] {
                        for (s, sn) in [(0x42u32, 1usize), (0x4243, 2), (0x42434445, 4)] {
                            frames(c, n, n, &[frame(k, kl, s, sn, &b)], false, false);
                        }
                    }
                }
            }
        });
        r.cases(&format!("dispatcher {n}: malformed headers"), |c| {
            let good = frame(keys.req[0], 8, 0x1020_3040, 4, &postcard::to_stdvec(&Ans { who: 3, what: 4 }).unwrap());
            for l in 0..good.len() {
                frames(c, n, n, &[good[..l].to_vec(), good.clone()], false, false);
            }
            for d in 0..=255u8 {
                let mut f = good.clone();
                f[0] = d;
                frames(c, n, n, &[f, good.clone()], false, false);
            }
        });
        r.cases(&format!("dispatcher {n}: sending with other key lengths"), |c| {
            for kn in [1usize, 2, 4, 8] {
                for (name, k) in in_keys(&keys) {
                    for b in bodies(name) {
                        for sf in [false, true] {
                            frames(c, n, kn, &[frame(k, 8, 0x77, 1, &b)], sf, true);
                        }
                    }
                }
                frames(c, n, kn, &[frame(flip(keys.req[0], &[1], 9), 8, 0x77, 1, &[])], false, false);
            }
        });
        r.cases(&format!("dispatcher {n}: frame sequences"), |c| {
            let ans = postcard::to_stdvec(&Ans { who: 3, what: 4 }).unwrap();
            let f = |k: Key, s: u32, b: &[u8]| frame(k, 8, s, 2, b);
            let mut cl: Vec<Vec<u8>> = vec![
                f(keys.req[0], 1, &ans),
                f(keys.req[1], 1, &[5]),
                f(keys.req[2], 3, &[0]),
                f(keys.req[3], 4, &[1]),
                f(keys.req[3], 4, &[2]),
                f(keys.req[0], 5, &[1]),
                f(flip(keys.req[0], &[0, 2], 1), 6, &ans),
                f(keys.tin[0], 7, &ans),
                f(keys.tin[2], 8, &[9]),
                f(keys.tin[1], 8, &[9]),
                frame(keys.req[0], 1, 9, 1, &ans),
                vec![],
                vec![0xff; 20],
                f(PingEndpoint::REQ_KEY, 1, &[7]),
                f(GetAllSchemasEndpoint::REQ_KEY, 2, &[]),
                f(keys.req[5], 3, &ans),
                f(keys.tin[4], 3, &ans),
                f(keys.tin[1], 3, &[0]),
            ];
            cl.dedup();
            let k = cl.len();
            let depth: usize = if th { 5 } else { 4 };
            for len in 1..=depth {
                for x in 0..k.pow(len as u32) {
                    let mut y = x;
                    let mut fs = vec![];
                    for _ in 0..len {
                        fs.push(cl[y % k].clone());
                        y /= k;
                    }
                    frames(c, n, n, &fs, x % 5 == 4, x % 3 == 0);
                }
            }
        });
    }
    r.assume("handlers are the harness's; payload decoding is compared with postcard's own decoder");
    r.finish()
}

// ---------------------------------------------------------------------------
// C13
// ---------------------------------------------------------------------------

/// The reference: what a run over these events, with these outcomes per send, must do.
struct Model<'a> {
    keys: &'a Keys,
    n: usize,
    spawn_fail: bool,
    n_schema: usize,
}

#[derive(Debug, PartialEq, Clone)]
enum End {
    Rx(usize),
    Tx(TxErr),
}

#[derive(Default, Debug)]
struct Trace {
    sends: Vec<Vec<u8>>,
    ends: Vec<End>,
    calls: Vec<&'static str>,
    later: usize,
}

impl Model<'_> {
    /// `outs`: the outcome of each send that took place.
    fn run(&self, evs: &[RxEv], outs: &[Out], schema_len: usize, cap: usize) -> Trace {
        let mut t = Trace::default();
        let mut si = 0;
        for (i, e) in evs.iter().enumerate() {
            let f = match e {
                RxEv::TooLarge | RxEv::Other => continue,
                RxEv::Closed => {
                    t.ends.push(End::Rx(i));
                    continue;
                }
                RxEv::Frame(f) if f.len() > cap => continue,
                RxEv::Frame(f) => f,
            };
            let w = want(self.keys, self.n, self.n, f, self.spawn_fail);
            if let Some(c) = &w.call {
                t.calls.push(c.0);
            }
            let mut fatal = None;
            let mut attempt = |t: &mut Trace, f: Vec<u8>| -> Option<TxErr> {
                let o = outs.get(si).copied().unwrap_or(Out::Ok);
                t.sends.push(f);
                si += 1;
                if o == Out::Ok { None } else { Some(TxErr { out: o, id: si - 1 }) }
            };
            if w.schemas {
                for _ in 0..schema_len {
                    attempt(&mut t, vec![]);
                }
                fatal = attempt(&mut t, b"totals".to_vec());
            } else {
                let h = w.hdr.clone();
                for r in w.now {
                    let handler = w.call.is_some();
                    if handler && r == err_frame(self.n, &h.as_ref().unwrap().seq, &WireError::SerFailed) {
                        // the handler's reply could not be serialized: that attempt always fails
                        let _ = attempt(&mut t, b"<unserializable>".to_vec());
                        fatal = attempt(&mut t, r);
                    } else if let Some(e) = attempt(&mut t, r) {
                        fatal = Some(e);
                        if handler {
                            fatal = attempt(&mut t, err_frame(self.n, &h.as_ref().unwrap().seq, &WireError::SerFailed));
                        }
                    }
                }
                t.later += w.later.len();
            }
            if let Some(e) = fatal {
                if e.out != Out::Other {
                    t.ends.push(End::Tx(e));
                }
            }
        }
        let _ = self.n_schema;
        t.ends.push(End::Rx(usize::MAX));
        t
    }
}

fn fault_scenario(n: usize, alphabet: &[RxEv], depth: usize, max_bad: usize, keys: &Keys, schema_len: usize) {
    let cap = 64;
    let mut evs = vec![];
    for _ in 0..depth {
        let k = vp_rt::choose(alphabet.len() + 1, "event");
        if k == alphabet.len() {
            break;
        }
        evs.push(alphabet[k].clone());
    }
    let mut bad = 0;
    run_events(n, evs, cap, Box::new(move |_, _| {
        if bad >= max_bad {
            return Out::Ok;
        }
        let o = [Out::Ok, Out::Other, Out::Timeout, Out::Closed][vp_rt::choose(4, "send")];
        if o != Out::Ok {
            bad += 1;
        }
        o
    }), keys, schema_len)
}

/// Two events alternating many times over, every send failing the same way or in a pattern:
/// nothing adds up.
fn long_scenario(n: usize, alphabet: &[RxEv], times: usize, keys: &Keys, schema_len: usize) {
    let a = vp_rt::choose(alphabet.len(), "event");
    let b = vp_rt::choose(alphabet.len(), "other event");
    let out = [Out::Ok, Out::Other, Out::Timeout, Out::Closed][vp_rt::choose(4, "sends")];
    let every = 1 + vp_rt::choose(3, "every n-th");
    let evs = (0..times).flat_map(|_| [alphabet[a].clone(), alphabet[b].clone()]).collect();
    run_events(n, evs, 64, Box::new(move |i, _| if i % every == 0 { out } else { Out::Ok }), keys, schema_len)
}

/// One event over and over, past the range of small counters.
fn same_scenario(alphabet: &[RxEv], n: usize, times: usize, keys: &Keys, schema_len: usize) {
    let a = vp_rt::choose(alphabet.len(), "event");
    let out = [Out::Ok, Out::Other][vp_rt::choose(2, "sends")];
    let every = [1, 255][vp_rt::choose(2, "every n-th")];
    let evs = vec![alphabet[a].clone(); times];
    run_events(n, evs, 64, Box::new(move |i, _| if i % every == 0 { out } else { Out::Ok }), keys, schema_len)
}

fn run_events(n: usize, evs: Vec<RxEv>, cap: usize, script: Box<dyn FnMut(usize, &[u8]) -> Out + Send>, keys: &Keys, schema_len: usize) {
    let spawn_fail = vp_rt::choose(2, "spawn") == 1;
    let log: Log = Default::default();
    let sp = MSpawn::default();
    sp.0.lock().unwrap().fail = spawn_fail;
    let tx = MTx::default();
    tx.0.lock().unwrap().script = Some(script);
    let rx = MRx::new(evs.clone());
    let mut ends = vec![];
    let mut taken_at_end = vec![];
    with_dev!(n, &log, &sp, |app, _keys| {
        let mut srv = Server::new(tx.clone(), rx.clone(), vec![0u8; cap], app, kk(n));
        loop {
            let e = match drive(srv.run()) {
                ServerError::RxFatal(e) => {
                    assert_eq!(e.kind, 0, "the run loop returned a receive error that is not fatal");
                    End::Rx(e.id)
                }
                ServerError::TxFatal(e) => End::Tx(e),
            };
            vp_rt::log(|| format!("run returned {e:?}"));
            taken_at_end.push(rx.taken());
            let last = e == End::Rx(usize::MAX);
            ends.push(e);
            if last {
                break;
            }
            assert!(ends.len() <= evs.len() + 1, "too many runs");
        }
    });
    let attempts = tx.0.lock().unwrap().sent.clone();
    tx.0.lock().unwrap().script = None;
    let outs: Vec<Out> = attempts.iter().map(|a| a.1).collect();
    let m = Model { keys, n, spawn_fail, n_schema: schema_len };
    let t = m.run(&evs, &outs, schema_len, cap);
    assert_eq!(attempts.len(), t.sends.len(), "number of sends: {attempts:02x?} expected {:02x?}", t.sends);
    for (i, (a, w)) in attempts.iter().zip(&t.sends).enumerate() {
        if w.is_empty() {
            assert_eq!(decode(&a.0).unwrap().0.key, key_n(GetAllSchemaDataTopic::TOPIC_KEY, n), "send {i}");
        } else if w == b"totals" {
            assert_eq!(decode(&a.0).unwrap().0.key, key_n(GetAllSchemasEndpoint::RESP_KEY, n), "send {i}");
        } else if w == b"<unserializable>" {
            assert!(a.0.ends_with(w), "send {i}");
        } else {
            assert_eq!(&a.0, w, "send {i}");
        }
    }
    assert_eq!(ends, t.ends, "what the run loop returned");
    // immediate handlers in order (spawned ones have not run yet)
    let imm: Vec<&str> = t.calls.iter().copied().filter(|c| *c != "es" && *c != "ts").collect();
    let got: Vec<&str> = log.lock().unwrap().iter().map(|l| l.0).collect();
    assert_eq!(got, imm, "handlers run");
    sp.run_all();
    let after = tx.0.lock().unwrap().sent.len() - attempts.len();
    assert_eq!(after, t.later, "replies of spawned handlers");
    vp_rt::outcome(&format!("{ends:?} {got:?} {outs:?}"));
    vp_rt::note(|| format!("{} events, sends {outs:?}, run returned {ends:?}", evs.len()));
}

fn run13(a: Args) {
    let mut r = Report::new(a, "model_checking", "distinct (return values, handlers run, send outcomes)");
    let th = r.thorough();
    for n in [1usize, 4] {
        let log: Log = Default::default();
        let sp = MSpawn::default();
        let keys = with_dev!(n, &log, &sp, |_app, k| k);
        let tx = MTx::default();
        // size of this device's schema report
        let schema_len = {
            let rx = MRx::new(vec![RxEv::Frame(frame(GetAllSchemasEndpoint::REQ_KEY, 8, 1, 1, &[]))]);
            with_dev!(n, &log, &sp, |app, _k| {
                let mut srv = Server::new(tx.clone(), rx, vec![0u8; 64], app, kk(n));
                let _ = drive(srv.run());
            });
            tx.ok_frames().len().saturating_sub(1)
        };
        let ans = postcard::to_stdvec(&Ans { who: 3, what: 4 }).unwrap();
        let f = |k: Key, s: u32, b: &[u8]| RxEv::Frame(frame(k, 8, s, 2, b));
        let base = vec![
            f(keys.req[0], 1, &ans),
            f(keys.req[1], 2, &[5]),
            f(keys.req[2], 3, &[0]),
            f(flip(keys.req[0], &[0, 2, 5], 1), 6, &ans),
            f(keys.tin[0], 7, &ans),
            RxEv::TooLarge,
            RxEv::Other,
            RxEv::Closed,
        ];
        let full = {
            let mut v = base.clone();
            v.extend([
                f(keys.req[3], 4, &[1]),
                f(keys.req[0], 5, &[1]),
                f(keys.tin[2], 8, &[9]),
                f(PingEndpoint::REQ_KEY, 9, &[7]),
                f(PingEndpoint::REQ_KEY, 9, &[]),
                RxEv::Frame(frame(keys.req[0], 1, 9, 1, &[9; 70])),
                RxEv::Frame(vec![]),
                RxEv::Frame(vec![0x0f, 1, 2]),
                RxEv::Frame(frame(keys.req[0], if n == 1 { 1 } else { 2 }, 9, 1, &ans)),
            ]);
            v
        };
        let mk = |name: String| {
            let mut c = Config::new(name, 0, 0).delays();
            c.time_cap = std::time::Duration::from_secs(if th { 3000 } else { 300 });
            c
        };
        r.explore(mk(format!("dispatcher {n}: all event kinds, depth {}", if th { 4 } else { 3 })), |_s: &Sim| {
            fault_scenario(n, &full, if th { 4 } else { 3 }, 9, &keys, schema_len)
        });
        r.explore(mk(format!("dispatcher {n}: main event kinds, depth {}", if th { 5 } else { 4 })), |_s: &Sim| {
            fault_scenario(n, &base, if th { 5 } else { 4 }, if th { 5 } else { 3 }, &keys, schema_len)
        });
        let few = vec![base[0].clone(), base[3].clone(), base[5].clone(), base[7].clone()];
        r.explore(mk(format!("dispatcher {n}: four event kinds, depth {}", if th { 6 } else { 5 })), |_s: &Sim| {
            fault_scenario(n, &few, if th { 6 } else { 5 }, 2, &keys, schema_len)
        });
        r.explore(mk(format!("dispatcher {n}: two events alternating {} times", if th { 400 } else { 70 })), |_s: &Sim| {
            long_scenario(n, &full, if th { 400 } else { 70 }, &keys, schema_len)
        });
        r.explore(mk(format!("dispatcher {n}: one event 700 times")), |_s: &Sim| same_scenario(&full, n, 700, &keys, schema_len));
        if n == 1 {
            r.explore(mk(format!("dispatcher {n}: one event 66000 times")), |_s: &Sim| same_scenario(&base, n, 66_000, &keys, schema_len));
        }
        let sch = vec![f(GetAllSchemasEndpoint::REQ_KEY, 0x55, &[]), base[0].clone()];
        r.explore(mk(format!("dispatcher {n}: faults in the schema report")), |_s: &Sim| {
            fault_scenario(n, &sch, 2, 2, &keys, schema_len)
        });
    }
    r.assume("outcomes: each send succeeds or fails as unspecified, timed out or closed; each receive yields a frame, too-large, unspecified or closed");
    r.finish()
}
