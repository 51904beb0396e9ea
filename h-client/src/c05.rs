//! C05: key length negotiation.

use crate::common::*;
use crate::icd::*;
use postcard_rpc::header::VarSeq;
use postcard_rpc::host_client::HostErr;
use postcard_rpc::standard_icd::{WireError, ERROR_KEY};
use postcard_rpc::{Endpoint, Key, Topic};
use std::time::Duration;
use vp_rt::report::{Args, Report};
use vp_rt::{Config, Sim};

fn which(h: &Hdr) -> Option<(char, Key)> {
    for (c, k) in [
        ('a', Alpha::REQ_KEY),
        ('b', Beta::REQ_KEY),
        ('g', Gamma::REQ_KEY),
        ('d', Delta::REQ_KEY),
        ('1', Up1::TOPIC_KEY),
        ('2', Up2::TOPIC_KEY),
    ] {
        if h.key == key_n(k, h.key.len()) {
            return Some((c, k));
        }
    }
    None
}

const LENS: [usize; 4] = [1, 2, 4, 8];

/// One caller, nothing overlaps: every outgoing frame has the length of the
/// previous reply.
fn sequential(sim: &Sim, rounds: usize) {
    let w = Wire::default();
    let cl = client(&w, 2, 4, Duration::ZERO);
    // the length each reply has, decided as we go
    let used: Sh<Vec<usize>> = Sh::new(vec![]);
    let used2 = used.clone();
    let w2 = w.clone();
    sim.spawn("server", async move {
        loop {
            let f = w2.next().await;
            let (h, b) = decode(&f).expect("malformed");
            let (c, _) = which(&h).unwrap_or_else(|| panic!("unknown key {:02x?} on the wire", h.key));
            let rk = match c {
                'a' => Alpha::RESP_KEY,
                'b' => Beta::RESP_KEY,
                'd' => Delta::RESP_KEY,
                _ => continue,
            };
            let n = LENS[vp_rt::choose(4, "reply key length")];
            // a topic message with another length, and a stray error reply, come first
            let other = LENS[vp_rt::choose(4, "topic key length")];
            w2.push(frame(Down1::TOPIC_KEY, other, 1, 4, &[1, 2]));
            used2.with(|u| u.push(n));
            if vp_rt::choose(2, "reply kind") == 1 {
                let e = WireError::UnknownKey;
                w2.push(encode(&Hdr { key: key_n(ERROR_KEY, n), seq: h.seq }, &postcard::to_stdvec(&e).unwrap()));
            } else {
                w2.push(encode(&Hdr { key: key_n(rk, n), seq: h.seq }, b));
            }
        }
    });
    let ok: Sh<bool> = Sh::new(false);
    let ok2 = ok.clone();
    let c = cl.clone();
    let c2 = cl.clone();
    let (w3, used3) = (w.clone(), used.clone());
    sim.spawn("caller", async move {
        let _s = c.subscribe_exclusive::<Down1>(8).await.unwrap();
        let mut cur = 8;
        let chk = |cur: usize, at: usize, what: &str| {
            let fs = w3.st().out.iter().map(|x| x.0.clone()).collect::<Vec<_>>();
            for (i, f) in fs.iter().enumerate().skip(at) {
                let n = decode(f).unwrap().0.key.len();
                assert_eq!(n, cur, "{what}: frame {i} has a {n}-byte key; the last reply had {cur}");
            }
            fs.len()
        };
        for k in 0..rounds {
            let at = w3.st().out.len();
            let a = Ans { who: k as u8, what: 5 };
            let cc = if k % 2 == 0 { &c } else { &c2 };
            let r = match vp_rt::choose(3, "endpoint") {
                0 => cc.send_resp::<Alpha>(&a).await,
                1 => cc.send_resp::<Beta>(&a).await,
                _ => cc.send_resp::<Delta>(&()).await.map(|_| a.clone()),
            };
            match r {
                Ok(x) => assert_eq!(x, a),
                Err(HostErr::Wire(WireError::UnknownKey)) => {}
                e => panic!("call {k} -> {e:?}"),
            }
            chk(cur, at, "request");
            cur = *used3.get().last().unwrap();
            let at = w3.st().out.len();
            c2.publish::<Up1>(VarSeq::Seq1(k as u8), &a).await.unwrap();
            while w3.frames().len() <= at {
                vp_rt::yield_now().await;
            }
            chk(cur, at, "topic message");
        }
        ok2.with(|o| *o = true);
    });
    sim.run();
    assert!(ok.get(), "the caller is stuck; reply key lengths {:?}", used.get());
    vp_rt::outcome(&format!("{:?}", used.get()));
    vp_rt::note(|| format!("reply key lengths {:?}", used.get()));
    drop(cl);
}

/// Overlapping calls and publishes; the server uses one length (`fixed`) or any
/// length per reply.
fn concurrent(sim: &Sim, callers: &[usize], fixed: Option<usize>) {
    let w = Wire::default();
    let cl = client(&w, 4, 4, Duration::ZERO);
    // lengths sent by the server / lengths in replies calls have returned
    let sent: Sh<Vec<usize>> = Sh::new(vec![]);
    let returned: Sh<bool> = Sh::new(false);
    // frames whose operation started after a call had returned
    let must: Sh<Vec<(u8, u32)>> = Sh::new(vec![]);
    let w2 = w.clone();
    let sent2 = sent.clone();
    sim.spawn("server", async move {
        loop {
            let f = w2.next().await;
            let (h, b) = decode(&f).expect("malformed");
            let (c, _) = which(&h).unwrap_or_else(|| panic!("unknown key {:02x?} on the wire", h.key));
            let l = h.key.len();
            assert!(l == 8 || sent2.get().contains(&l), "a {l}-byte key on the wire; replies so far had {:?}", sent2.get());
            let rk = match c {
                'a' => Alpha::RESP_KEY,
                'b' => Beta::RESP_KEY,
                _ => continue,
            };
            let n = fixed.unwrap_or_else(|| LENS[vp_rt::choose(4, "reply key length")]);
            sent2.with(|u| u.push(n));
            w2.push(encode(&Hdr { key: key_n(rk, n), seq: h.seq }, b));
        }
    });
    let done: Sh<usize> = Sh::new(0);
    for (i, n) in callers.iter().enumerate() {
        let (c, n, done, ret, must) = (cl.clone(), *n, done.clone(), returned.clone(), must.clone());
        sim.spawn(format!("caller{i}"), async move {
            for k in 0..n {
                let a = Ans { who: i as u8, what: k as u32 };
                if ret.get() {
                    must.with(|m| m.push((a.who, a.what)));
                }
                let r = if i == 0 { c.send_resp::<Alpha>(&a).await } else { c.send_resp::<Beta>(&a).await };
                assert_eq!(r, Ok(a), "call {i}.{k}");
                ret.with(|r| *r = true);
                let t = Ans { who: 100 + i as u8, what: k as u32 };
                must.with(|m| m.push((t.who, t.what)));
                c.publish::<Up1>(VarSeq::Seq2(1), &t).await.unwrap();
            }
            done.with(|d| *d += 1);
        });
    }
    sim.run();
    assert_eq!(done.get(), callers.len(), "a caller is stuck; reply key lengths {:?}", sent.get());
    let must = must.get();
    let mut sig = vec![];
    for f in w.frames() {
        let (h, b) = decode(&f).unwrap();
        which(&h).unwrap();
        let a: Ans = postcard::from_bytes(b).unwrap();
        sig.push(h.key.len());
        if must.contains(&(a.who, a.what)) {
            match fixed {
                Some(n) => assert_eq!(h.key.len(), n, "message {a:?} was started after a reply with a {n}-byte key"),
                None => assert!(sent.get().contains(&h.key.len())),
            }
        }
    }
    vp_rt::outcome(&format!("{sig:?}"));
    vp_rt::note(|| format!("key lengths on the wire {sig:?}"));
    drop(cl);
}

pub fn run(a: Args) {
    let t = a.thorough;
    let mut r = Report::new(a, "model_checking", "each explored history of reply key lengths and schedule of concurrent callers is one evaluation; judged on the headers put on the wire and the results of the calls");
    r.assume("sequentially consistent memory; accesses of the shared key-length cell are scheduling points (hook)");
    r.explore(Config::new("non-overlapping calls, all reply lengths", 0, 0).delays(), |s| sequential(s, if t { 3 } else { 2 }));
    for n in LENS {
        r.explore(Config::new(format!("two callers, {n}-byte server"), if t { 3 } else { 2 }, 0).delays(), |s| concurrent(s, &[2, 1], Some(n)));
        r.explore(Config::new(format!("three callers, {n}-byte server"), 2, if t { 1 } else { 0 }).delays(), |s| concurrent(s, &[1, 1, 1], Some(n)));
    }
    r.explore(Config::new("two callers, any reply lengths", 2, if t { 1 } else { 0 }).delays(), |s| concurrent(s, &[1, 1], None));
    r.explore(Config::new("two callers twice, any reply lengths", if t { 2 } else { 1 }, 0).delays(), |s| concurrent(s, &[2, 2], None));
    r.finish()
}
