//! C01 / C02: concurrent calls against a server that answers in any order,
//! with strays, duplicates, malformed frames, error replies and abandoned calls.

use crate::common::*;
use crate::icd::*;
use postcard_rpc::host_client::HostErr;
use postcard_rpc::standard_icd::{WireError, ERROR_KEY};
use postcard_rpc::{Endpoint, Key, Topic};
use std::future::Future;
use std::pin::Pin;
use std::task::Poll;
use std::time::Duration;
use vp_rt::report::{Args, Report};
use vp_rt::{Config, Sim};

type Res = Result<Ans, HostErr<WireError>>;

#[derive(Clone)]
struct Plan {
    /// endpoints (0 alpha, 1 beta) called one after another, per caller
    callers: Vec<Vec<u8>>,
    depth: usize,
    kn: usize,
    sn: usize,
    noise: bool,
    forms: bool,
    hold: bool,
    cancel: Vec<usize>,
    slow: bool,
    subs: bool,
    timeout: Duration,
}

impl Plan {
    fn new(callers: &[&[u8]]) -> Plan {
        Plan {
            callers: callers.iter().map(|c| c.to_vec()).collect(),
            depth: 4,
            kn: 8,
            sn: 4,
            noise: false,
            forms: false,
            hold: true,
            cancel: vec![],
            slow: false,
            subs: false,
            timeout: Duration::ZERO,
        }
    }
}

async fn next_or_idle(w: &Wire) -> Option<Vec<u8>> {
    let mut n: Pin<Box<dyn Future<Output = Vec<u8>> + '_>> = Box::pin(w.next());
    let mut t: Pin<Box<dyn Future<Output = ()>>> = Box::pin(vp_rt::sleep(Duration::from_secs(1)));
    std::future::poll_fn(move |cx| {
        if let Poll::Ready(f) = n.as_mut().poll(cx) {
            return Poll::Ready(Some(f));
        }
        t.as_mut().poll(cx).map(|_| None)
    })
    .await
}

fn resp_key(ep: u8) -> Key {
    if ep == 0 {
        Alpha::RESP_KEY
    } else {
        Beta::RESP_KEY
    }
}

struct Pending {
    ep: u8,
    who: u8,
    what: u32,
    seq: Vec<u8>,
}

fn answer_of(p: &Pending) -> Ans {
    Ans { who: p.who, what: p.what.wrapping_mul(3).wrapping_add(p.ep as u32) }
}

fn body(a: &Ans) -> Vec<u8> {
    postcard::to_stdvec(a).unwrap()
}

fn ebody(who: u8) -> Vec<u8> {
    postcard::to_stdvec(&WireError::FrameTooShort(postcard_rpc::standard_icd::FrameTooShort {
        len: who as u32,
    }))
    .unwrap()
}

fn scenario(sim: &Sim, p: &Plan, lost: bool) {
    let w = Wire::default();
    w.st().slow = p.slow;
    let cl = client(&w, p.sn, p.depth, p.timeout);
    let results: Sh<Vec<(usize, usize, Option<Res>)>> = Sh::new(vec![]);
    let total: usize = p.callers.iter().map(|c| c.len()).sum();

    if p.subs {
        // a subscriber that never reads, and a busy topic
        let c = cl.clone();
        let w2 = w.clone();
        let kn = p.kn;
        sim.spawn("subscriber", async move {
            let s = c.subscribe_exclusive::<Down1>(1).await;
            let m = c.subscribe_multi::<Down2>(1).await;
            for i in 0..2u32 {
                w2.push(frame(Down1::TOPIC_KEY, kn, i, 4, &body(&Ans { who: 99, what: i })));
                w2.push(frame(Down2::TOPIC_KEY, kn, i, 4, &[i as u8]));
            }
            std::future::pending::<()>().await;
            drop((s, m));
        });
    }
    for (i, eps) in p.callers.iter().enumerate() {
        let c = cl.clone();
        let eps = eps.clone();
        let results = results.clone();
        let cancellable = p.cancel.contains(&i);
        sim.spawn(format!("caller{i}"), async move {
            for (k, ep) in eps.iter().enumerate() {
                let req = Ans { who: i as u8, what: (1000 * (i + 1) + k) as u32 };
                let call = async {
                    if *ep == 0 {
                        c.send_resp::<Alpha>(&req).await
                    } else {
                        c.send_resp::<Beta>(&req).await
                    }
                };
                let r = if cancellable {
                    may_drop(call).await
                } else {
                    Some(call.await)
                };
                vp_rt::log(|| format!("call {i}.{k} -> {r:?}"));
                results.with(|v| v.push((i, k, r)));
            }
        });
    }
    drop(cl.clone());

    // the server
    let w2 = w.clone();
    let pl = p.clone();
    sim.spawn("server", async move {
        let w = w2;
        let p = pl;
        let mut pend: Vec<Pending> = vec![];
        let mut seen = 0;
        let mut last: Option<Vec<u8>> = None;
        loop {
            let f = if pend.is_empty() {
                Some(w.next().await)
            } else {
                next_or_idle(&w).await
            };
            let idle = f.is_none();
            if let Some(f) = f {
                let (h, b) = decode(&f).expect("client sent a malformed frame");
                let req: Ans = postcard::from_bytes(b).expect("client sent a bad body");
                let ep = if h.key == key_n(Alpha::REQ_KEY, h.key.len()) {
                    0
                } else if h.key == key_n(Beta::REQ_KEY, h.key.len()) {
                    1
                } else {
                    panic!("request with unknown key")
                };
                seen += 1;
                pend.push(Pending { ep, who: req.who, what: req.what, seq: h.seq });
            }
            while !pend.is_empty() {
                let can_hold = p.hold && seen < total && !idle;
                let n = pend.len() + can_hold as usize;
                let c = vp_rt::choose(n, "answer");
                if c == pend.len() {
                    break;
                }
                let x = pend.remove(c);
                let rk = key_n(resp_key(x.ep), p.kn);
                let mk = |key: Vec<u8>, seq: Vec<u8>, b: &[u8]| encode(&Hdr { key, seq }, b);
                if p.noise {
                    let mut other = x.seq.clone();
                    other[0] ^= 0x40;
                    let stray = body(&Ans { who: 200, what: 7 });
                    match vp_rt::deviate(9, "noise") {
                        1 => {
                            if let Some(l) = &last {
                                w.push(l.clone())
                            }
                        }
                        2 => w.push(mk(rk.clone(), other, &stray)),
                        3 => w.push(mk(key_n(resp_key(1 - x.ep), p.kn), x.seq.clone(), &stray)),
                        4 => w.push(vec![0xC0, 1, 2]),
                        5 => {
                            let mut f = mk(rk.clone(), x.seq.clone(), &stray);
                            f[0] |= 1;
                            w.push(f)
                        }
                        6 => w.push(mk(key_n(ERROR_KEY, p.kn), other, &ebody(200))),
                        7 => w.push(mk(key_n(Down1::TOPIC_KEY, p.kn), x.seq.clone(), &stray)),
                        8 => {
                            let mut f = mk(rk.clone(), x.seq.clone(), &stray);
                            f[0] = f[0] & 0xcf | 0x30;
                            w.push(f)
                        }
                        _ => {}
                    }
                }
                let form = if p.forms { vp_rt::deviate(5, "form") } else { 0 };
                let ok = mk(rk.clone(), x.seq.clone(), &body(&answer_of(&x)));
                let er = mk(key_n(ERROR_KEY, p.kn), x.seq.clone(), &ebody(x.who));
                match form {
                    0 => w.push(ok.clone()),
                    1 => w.push(er),
                    2 => w.push(mk(rk, x.seq.clone(), &[x.who])),
                    3 => w.push(mk(key_n(ERROR_KEY, p.kn), x.seq.clone(), &[0xff, 0xff])),
                    _ => {
                        w.push(er);
                        w.push(ok.clone());
                    }
                }
                last = Some(ok);
            }
        }
    });

    sim.run();

    // judge
    let st = w.st();
    let res = results.get_all();
    // which sequence number did each call use?
    let mut seq_of: Vec<((usize, usize), Vec<u8>)> = vec![];
    for (f, s) in &st.out {
        if *s == SendState::Aborted {
            continue;
        }
        let (h, b) = decode(f).expect("malformed frame on the wire");
        let a: Ans = postcard::from_bytes(b).unwrap();
        let i = a.who as usize;
        let k = a.what as usize - 1000 * (i + 1);
        seq_of.push(((i, k), h.seq));
    }
    let find = |i: usize, k: usize| seq_of.iter().find(|x| x.0 == (i, k)).map(|x| x.1.clone());
    let delivered: Vec<(Hdr, Vec<u8>)> = st
        .taken_log
        .iter()
        .filter_map(|f| decode(f).map(|(h, b)| (h, b.to_vec())))
        .collect();
    let matching = |key: Key, seq: &[u8]| -> Vec<Vec<u8>> {
        delivered
            .iter()
            .filter(|(h, _)| h.seq == seq && h.key == key_n(key, h.key.len()))
            .map(|(_, b)| b.clone())
            .collect()
    };
    let mut sig = String::new();
    for (i, eps) in p.callers.iter().enumerate() {
        for (k, ep) in eps.iter().enumerate() {
            let r = res.iter().find(|r| r.0 == i && r.1 == k);
            let seq = find(i, k);
            let (okb, erb) = match &seq {
                Some(s) => (matching(resp_key(*ep), s), matching(ERROR_KEY, s)),
                None => (vec![], vec![]),
            };
            match r {
                None => {
                    // still pending (or never started because an earlier one is)
                    if lost && seq.is_some() && (!okb.is_empty() || !erb.is_empty()) {
                        panic!("call {i}.{k} is still waiting although its reply was delivered");
                    }
                    if lost && seq.is_none() && (k == 0 || res.iter().any(|r| r.0 == i && r.1 == k - 1)) {
                        panic!("call {i}.{k} never got its request onto the wire");
                    }
                }
                Some((_, _, None)) => {}
                Some((_, _, Some(r))) => {
                    sig.push_str(&format!("{i}.{k}:{};", match r {
                        Ok(_) => "ok",
                        Err(HostErr::Wire(_)) => "wire",
                        Err(HostErr::Postcard(_)) => "bad",
                        Err(_) => "other",
                    }));
                    if lost {
                        assert!(
                            !matches!(r, Err(HostErr::Closed) | Err(HostErr::BadResponse)),
                            "call {i}.{k} failed with {r:?} although the connection is open"
                        );
                        assert!(
                            seq.is_some(),
                            "call {i}.{k} completed with {r:?} without a request on the wire"
                        );
                    } else {
                        // the server answers every request with a value of its own
                        let mine = Pending { ep: *ep, who: i as u8, what: (1000 * (i + 1) + k) as u32, seq: vec![] };
                        match r {
                            Ok(a) if *a != answer_of(&mine) => {
                                panic!("call {i}.{k} returned {a:?}, the answer to another request")
                            }
                            Err(HostErr::Wire(WireError::FrameTooShort(e))) if e.len != i as u32 => {
                                panic!("call {i}.{k} returned the error reply {e:?} to another request")
                            }
                            Ok(a) => assert!(
                                okb.iter().any(|b| postcard::from_bytes::<Ans>(b).as_ref() == Ok(a)),
                                "call {i}.{k} returned {a:?}, which no reply to it carried (its replies: {okb:02x?})"
                            ),
                            Err(HostErr::Wire(e)) => assert!(
                                erb.iter().any(|b| postcard::from_bytes::<WireError>(b).as_ref() == Ok(e)),
                                "call {i}.{k} returned error {e:?}, which no error reply to it carried"
                            ),
                            Err(HostErr::Postcard(_)) => assert!(
                                okb.iter().any(|b| postcard::from_bytes::<Ans>(b).is_err())
                                    || erb.iter().any(|b| postcard::from_bytes::<WireError>(b).is_err()),
                                "call {i}.{k} returned a decode error but all its replies decode"
                            ),
                            Err(e) => panic!("call {i}.{k} returned {e:?} on an open connection"),
                        }
                    }
                }
            }
        }
    }
    vp_rt::outcome(&sig);
    vp_rt::note(|| format!("{} frames out, {} in; results {sig}", st.out.len(), st.taken));
    drop(st);
    drop(cl);
}

impl Sh<Vec<(usize, usize, Option<Res>)>> {
    fn get_all(&self) -> Vec<(usize, usize, Option<Res>)> {
        self.with(std::mem::take)
    }
}

pub fn run(a: Args) {
    let lost = a.prop == "C02";
    let rule = if lost {
        "each explored schedule (and server/cancellation choice) of concurrent calls is one evaluation; judged at rest: every call whose reply was delivered is complete"
    } else {
        "each explored schedule (and server/noise/cancellation choice) of concurrent calls is one evaluation; judged: every completed call's result was carried by a frame with its own sequence number and key"
    };
    let t = a.thorough;
    let mut r = Report::new(a, "model_checking", rule);
    r.assume("operations of tokio's channels/mutex and of maitake-sync's WaitMap/WaitQueue are atomic steps (their own internals are not interleaved)");
    r.assume("sequentially consistent memory");
    let p = Plan::new(&[&[0], &[0]]);
    r.explore(Config::new("two calls, same endpoint", if t { 3 } else { 2 }, 1).delays(), |s| scenario(s, &p, lost));
    r.explore(Config::new("two calls, same endpoint (switch at any block)", if t { 1 } else { 0 }, if t { 1 } else { 0 }), |s| scenario(s, &p, lost));

    let x = |n: u8| if t { n + 2 } else { n + 1 };
    let mut p = Plan::new(&[&[0], &[1]]);
    p.noise = true;
    p.forms = true;
    p.kn = 1;
    r.explore(Config::new("two calls, noise and error replies, 1-byte keys", 1, x(1)).delays(), |s| scenario(s, &p, lost));

    let mut p = Plan::new(&[&[0], &[0]]);
    p.noise = true;
    p.forms = true;
    p.kn = 2;
    p.sn = 1;
    r.explore(Config::new("two calls, same endpoint, noise, 2-byte keys", 1, x(1)).delays(), |s| scenario(s, &p, lost));

    let mut p = Plan::new(&[&[0], &[0, 0]]);
    p.cancel = vec![0];
    p.forms = true;
    p.kn = 4;
    r.explore(Config::new("call abandoned next to two calls", x(1), x(0)).delays(), |s| scenario(s, &p, lost));

    let mut p = Plan::new(&[&[0, 0, 0]]);
    p.cancel = vec![0];
    p.forms = true;
    p.sn = 2;
    r.explore(Config::new("calls of one task abandoned one after another", x(1), x(0)).delays(), |s| scenario(s, &p, lost));

    let mut p = Plan::new(&[&[0], &[0], &[1]]);
    p.depth = 1;
    p.slow = true;
    p.hold = false;
    r.explore(Config::new("three calls, queue depth 1, slow wire", x(1), 0).delays(), |s| scenario(s, &p, lost));

    let mut p = Plan::new(&[&[0], &[0], &[1]]);
    p.cancel = vec![0, 1];
    p.depth = 1;
    r.explore(Config::new("three calls, two of them abandonable, queue depth 1", if t { 2 } else { 1 }, x(0)).delays(), |s| scenario(s, &p, lost));

    let mut p = Plan::new(&[&[0], &[1]]);
    p.subs = true;
    p.kn = 8;
    r.explore(Config::new("calls next to a stuck subscriber", x(1), 1).delays(), |s| scenario(s, &p, lost));

    let mut p = Plan::new(&[&[0], &[1]]);
    p.subs = true;
    p.timeout = Duration::from_millis(10);
    p.kn = 2;
    r.explore(Config::new("calls next to a stuck subscriber, with timeout", x(1), 1).delays(), |s| scenario(s, &p, lost));
    r.explore(Config::new("a sequence number still in use comes round again", 0, 0).delays(), |s| crate::c06::reuse(s, false));
    r.explore(Config::new("raw calls with a sequence number in use", 1, 0).delays(), |s| crate::c06::reuse(s, true));
    r.explore(Config::new("the number of an abandoned call comes round again", 0, 0).delays(), |s| crate::c06::abandoned(s, false));
    r.explore(Config::new("raw calls with the number of an abandoned call", 1, 0).delays(), |s| crate::c06::abandoned(s, true));
    for (sn, earlier) in [(1, 0), (2, 0), (4, 0), (4, 258)] {
        let mut c = Config::new(format!("frames that are nearly replies, {sn}-byte numbers, {earlier} earlier calls"), 0, 0).delays();
        c.max_steps = 200_000;
        r.explore(c, |s| crate::wide::calls(s, sn, earlier));
    }
    r.explore(Config::new("payloads of every order of size", 0, 0).delays(), crate::wide::sizes);
    r.finish()
}
