//! C03: outgoing frames reach the wire exactly once, whole and in order.

use crate::common::*;
use crate::icd::*;
use postcard_rpc::header::VarSeq;
use postcard_rpc::{Endpoint, Topic};
use std::time::Duration;
use vp_rt::report::{Args, Report};
use vp_rt::{Config, Sim};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    /// publish on Up1 with this sequence width
    P(usize),
    /// publish on Up2 with a body of this length
    B(usize),
    /// request (answered by the server), on alpha
    C,
}

#[derive(Clone)]
struct Plan {
    prod: Vec<Vec<Op>>,
    depth: usize,
    cancel: Vec<usize>,
    slow: bool,
    /// the wire stalls after this many frames until everybody is stuck
    stall: Option<usize>,
    sn: usize,
    wire_fail_at: Option<usize>,
}

#[derive(Clone, Debug, PartialEq)]
enum Fate {
    Accepted,
    Dropped,
    Refused,
}

fn payload(i: usize, k: usize, op: Op) -> Vec<u8> {
    match op {
        Op::P(_) | Op::C => postcard::to_stdvec(&Ans { who: i as u8, what: (100 + k) as u32 }).unwrap(),
        Op::B(n) => postcard::to_stdvec(&Blob((0..n).map(|x| (x + i * 50 + k * 7) as u8).collect())).unwrap(),
    }
}

fn scenario(sim: &Sim, p: &Plan) {
    let w = Wire::default();
    {
        let mut s = w.st();
        s.slow = p.slow;
        s.gate = p.stall;
        s.fail_from = p.wire_fail_at;
    }
    let cl = client(&w, p.sn, p.depth, Duration::ZERO);
    // (producer, op index, time started, time ended, fate)
    let log: Sh<Vec<(usize, usize, Fate)>> = Sh::new(vec![]);
    for (i, ops) in p.prod.iter().enumerate() {
        let c = cl.clone();
        let ops = ops.clone();
        let log = log.clone();
        let canc = p.cancel.contains(&i);
        sim.spawn(format!("producer{i}"), async move {
            for (k, op) in ops.iter().enumerate() {
                let seq = (i * 16 + k) as u32;
                let act = async {
                    match *op {
                        Op::P(n) => {
                            let s = match n {
                                1 => VarSeq::Seq1(seq as u8),
                                2 => VarSeq::Seq2(seq as u16),
                                _ => VarSeq::Seq4(seq),
                            };
                            c.publish::<Up1>(s, &Ans { who: i as u8, what: (100 + k) as u32 }).await.is_ok()
                        }
                        Op::B(n) => {
                            let b = (0..n).map(|x| (x + i * 50 + k * 7) as u8).collect();
                            c.publish::<Up2>(VarSeq::Seq2(seq as u16), &Blob(b)).await.is_ok()
                        }
                        Op::C => c.send_resp::<Alpha>(&Ans { who: i as u8, what: (100 + k) as u32 }).await.is_ok(),
                    }
                };
                let r = if canc { may_drop(act).await } else { Some(act.await) };
                let fate = match r {
                    Some(true) => Fate::Accepted,
                    Some(false) => Fate::Refused,
                    None => Fate::Dropped,
                };
                vp_rt::log(|| format!("op {i}.{k} {op:?} -> {fate:?}"));
                log.with(|l| l.push((i, k, fate)));
            }
        });
    }
    let w2 = w.clone();
    sim.spawn("server", async move {
        loop {
            let f = w2.next().await;
            if let Some((h, b)) = decode(&f) {
                if h.key == key_n(Alpha::REQ_KEY, h.key.len()) {
                    w2.push(encode(&Hdr { key: key_n(Alpha::RESP_KEY, 8), seq: h.seq }, b));
                }
            }
        }
    });
    if p.stall.is_some() {
        sim.run_until(Duration::ZERO);
        // at rest: the queue holds at most `depth`, so no more than gate + 1 (being sent) +
        // depth operations can have been accepted
        let acc = log.with(|l| l.iter().filter(|x| x.2 == Fate::Accepted).count());
        let calls = p.prod.iter().flatten().any(|o| *o == Op::C);
        if !calls && p.cancel.is_empty() {
            let total: usize = p.prod.iter().map(|o| o.len()).sum();
            let room = p.stall.unwrap() + 1 + p.depth;
            assert_eq!(acc, total.min(room), "accepted messages while the wire was stalled");
        }
        w.set_gate(None);
    }
    sim.run();

    let log = log.get();
    let st = w.st();
    assert!(!st.overlap, "a frame was handed to the wire while another one was being sent");
    // identify each frame on the wire
    let mut seen: Vec<(usize, usize)> = vec![];
    for (f, s) in &st.out {
        if *s == SendState::Aborted {
            panic!("a frame was cut short on an open connection: {f:02x?}");
        }
        let (h, b) = decode(f).unwrap_or_else(|| panic!("not a frame: {f:02x?}"));
        let mut id = None;
        for (i, ops) in p.prod.iter().enumerate() {
            for (k, op) in ops.iter().enumerate() {
                if payload(i, k, *op) != b {
                    continue;
                }
                let seq = (i * 16 + k) as u32;
                let (key, sn, chk) = match op {
                    Op::P(n) => (Up1::TOPIC_KEY, *n, true),
                    Op::B(_) => (Up2::TOPIC_KEY, 2, true),
                    Op::C => (Alpha::REQ_KEY, p.sn, false),
                };
                if h.key == key_n(key, 8) && h.seq.len() == sn && (!chk || h.seq == seq_n(seq, sn)) {
                    id = Some((i, k));
                }
            }
        }
        let id = id.unwrap_or_else(|| panic!("a frame nobody sent: {f:02x?}"));
        assert!(!seen.contains(&id), "message {id:?} appears twice on the wire");
        // same-producer order
        if let Some(l) = seen.iter().filter(|x| x.0 == id.0).next_back() {
            assert!(l.1 < id.1, "message {id:?} of a producer overtaken by its later message {l:?}");
        }
        seen.push(id);
    }
    let mut sig = String::new();
    for (i, ops) in p.prod.iter().enumerate() {
        for k in 0..ops.len() {
            let fate = log.iter().find(|l| l.0 == i && l.1 == k).map(|l| l.2.clone());
            let on = seen.contains(&(i, k));
            match fate {
                Some(Fate::Accepted) if p.wire_fail_at.is_none() => {
                    assert!(on, "message {i}.{k} was accepted but never reached the wire")
                }
                Some(Fate::Refused) if p.wire_fail_at.is_none() => {
                    panic!("message {i}.{k} was refused on an open connection")
                }
                None if p.wire_fail_at.is_none() => {
                    panic!("message {i}.{k} is still waiting although the wire is idle")
                }
                _ => {}
            }
        }
    }
    for x in &seen {
        sig.push_str(&format!("{}.{} ", x.0, x.1));
    }
    if let Some(n) = p.wire_fail_at {
        // nothing is sent after a send has failed
        assert!(st.out.len() <= n + 1, "the wire was used again after it had failed");
    }
    vp_rt::outcome(&sig);
    vp_rt::note(|| format!("order on the wire: {sig}"));
    drop(st);
    drop(cl);
}

/// Messages that look alike: the same header with another body, the same body
/// under another header, and the very same message again and again.
fn alike(sim: &Sim, len: usize, depth: usize, stall: Option<usize>) {
    let w = Wire::default();
    w.st().gate = stall;
    let cl = client(&w, 2, depth, Duration::ZERO);
    let want: Sh<Vec<Vec<u8>>> = Sh::new(vec![]);
    let done = Flag::default();
    let (c, want2, d2) = (cl.clone(), want.clone(), done.clone());
    sim.spawn("producer", async move {
        for _ in 0..len {
            let (seq, what, up2) = [(5, 1, false), (5, 2, false), (6, 1, false), (5, 1, true)][vp_rt::choose(4, "message")];
            let a = Ans { who: 1, what };
            if up2 {
                // the same body bytes under another key: a length of 1 and one byte
                c.publish::<Up2>(VarSeq::Seq2(seq), &Blob(vec![1])).await.unwrap();
                want2.with(|v| v.push(frame(Up2::TOPIC_KEY, 8, seq as u32, 2, &[1, 1])));
            } else {
                c.publish::<Up1>(VarSeq::Seq2(seq), &a).await.unwrap();
                want2.with(|v| v.push(frame(Up1::TOPIC_KEY, 8, seq as u32, 2, &postcard::to_stdvec(&a).unwrap())));
            }
        }
        d2.set();
    });
    if stall.is_some() {
        sim.run_until(Duration::ZERO);
        w.set_gate(None);
    }
    sim.run();
    assert!(done.is_set(), "a message was never accepted");
    let (got, want) = (w.frames(), want.get());
    assert_eq!(got, want, "the wire does not carry exactly the messages that were sent");
    vp_rt::outcome(&format!("{:?}", want.iter().map(|f| (f[1], f[9], f[12])).collect::<Vec<_>>()));
    drop(cl);
}

pub fn run(a: Args) {
    let t = a.thorough;
    let mut r = Report::new(a, "model_checking", "each explored schedule of concurrent producers is one evaluation; judged: the frames given to the wire are exactly the accepted messages, byte for byte, once each, in each producer's order");
    r.assume("operations of tokio's channels are atomic steps; sequentially consistent memory");
    let x = |n: u8| if t { n + 1 } else { n };
    let base = Plan { prod: vec![], depth: 2, cancel: vec![], slow: false, stall: None, sn: 4, wire_fail_at: None };
    use Op::*;

    for (name, prod, depth, slow, stall, cancel, p, d) in [
        ("two producers, depth 1", vec![vec![P(1), P(2)], vec![P(4), B(0)]], 1, false, None, vec![], 2, 1),
        ("two producers, depth 1, slow wire", vec![vec![B(3), B(200)], vec![P(1), P(1)]], 1, true, None, vec![], 2, 1),
        ("three producers, depth 2, stalled wire", vec![vec![P(1), P(2)], vec![P(4), P(4)], vec![B(5)]], 2, false, Some(1), vec![], 1, 1),
        ("stalled wire, depth 1", vec![vec![P(1), P(2), P(4)], vec![B(1), B(2)]], 1, false, Some(0), vec![], 2, 0),
        ("stalled wire, depth 3", vec![vec![P(1), P(2), P(4)], vec![B(1), B(2), B(3)]], 3, false, Some(0), vec![], 1, 1),
        ("calls and publishes", vec![vec![C, P(2)], vec![P(4), C]], 1, true, None, vec![], 2, 1),
        ("abandoned publish", vec![vec![P(1), P(2)], vec![P(4), B(9)]], 1, true, Some(0), vec![0], 2, 1),
        ("abandoned call", vec![vec![C, P(2)], vec![P(4), P(1)]], 1, false, Some(0), vec![0], 2, 1),
    ] {
        let pl = Plan { prod, depth, slow, stall, cancel, ..base.clone() };
        r.explore(Config::new(name, x(p), d).delays(), |s| scenario(s, &pl));
    }
    for at in 0..3 {
        let pl = Plan { prod: vec![vec![P(1), P(2), P(4)], vec![B(2), C]], depth: 2, wire_fail_at: Some(at), ..base.clone() };
        r.explore(Config::new(format!("wire fails at frame {at}"), x(1), 1).delays(), |s| scenario(s, &pl));
    }
    for (depth, stall) in [(1, None), (2, Some(0))] {
        r.explore(Config::new(format!("messages that look alike, depth {depth}"), 0, 0).delays(), |s| alike(s, if t { 6 } else { 4 }, depth, stall));
    }
    // long run: bodies of many sizes through a queue of every small depth
    for depth in 1..=3 {
        let pl = Plan {
            prod: vec![(0..if t { 300 } else { 130 }).map(B).collect()],
            depth,
            sn: 2,
            ..base.clone()
        };
        let mut c = Config::new(format!("payload sizes, depth {depth}"), 0, 0).delays();
        c.max_steps = 200_000;
        r.explore(c, |s| scenario(s, &pl));
    }
    r.explore(Config::new("payloads of every order of size", 0, 0).delays(), crate::wide::sizes);
    r.finish()
}
