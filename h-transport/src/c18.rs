//! C18: the serial client over a scripted port.

use crate::cobs::{cobs_decode, cobs_encode};
use crate::common::*;
use crate::icd::*;
use postcard_rpc::header::VarSeq;
use postcard_rpc::host_client::HostErr;
use postcard_rpc::standard_icd::ERROR_PATH;
use postcard_rpc::{Endpoint, Topic};
use std::sync::Arc;
use std::time::Duration;
use tokio_serial::mock::{plug, Fail, Port};
use vp_rt::report::{Args, Report};
use vp_rt::{Config, Sim};

/// Bytes of one terminated frame the client accepts, encoded.
const ROOM: usize = 1024;

fn open(depth: usize) -> (Client, Arc<Port>) {
    let p = plug(&["/dev/other", "/dev/ttyV0"]).pop().unwrap();
    let c = Client::try_new_serial_cobs("/dev/ttyV0", ERROR_PATH, depth, 115_200, sk(2)).expect("port opens");
    (c, p)
}

fn enc(f: &[u8]) -> Vec<u8> {
    let mut v = cobs_encode(f);
    v.push(0);
    v
}

/// The frames of our topic a stream contains.
fn expected(stream: &[u8]) -> Vec<Vec<u8>> {
    let mut out = vec![];
    let mut segs: Vec<&[u8]> = stream.split(|b| *b == 0).collect();
    segs.pop();
    for s in segs {
        if s.len() + 1 > ROOM {
            continue;
        }
        if let Some(f) = cobs_decode(s) {
            if let Some((h, _)) = decode(&f) {
                if h.key == key_n(Down1::TOPIC_KEY, h.key.len()) {
                    out.push(f)
                }
            }
        }
    }
    out
}

fn raw_reader(sim: &Sim, cl: &Client) -> (Sh<Vec<Vec<u8>>>, Flag) {
    let got: Sh<Vec<Vec<u8>>> = Sh::new(vec![]);
    let ready = Flag::default();
    let (c, g, r) = (cl.clone(), got.clone(), ready.clone());
    sim.spawn("reader", async move {
        let mut s = c.subscribe_exclusive_raw(Down1::TOPIC_KEY, 1200).await.expect("open");
        drop(c);
        r.set();
        while let Some(f) = s.recv().await {
            g.with(|v| v.push(f.to_bytes()));
        }
    });
    (got, ready)
}

fn receive(sim: &Sim, stream: &[u8], cuts: impl FnOnce(usize) -> Vec<usize>) {
    let (cl, port) = open(4);
    let (got, ready) = raw_reader(sim, &cl);
    let mut pieces = vec![];
    let mut at = 0;
    for c in cuts(stream.len()) {
        pieces.push(stream[at..c].to_vec());
        at = c;
    }
    pieces.push(stream[at..].to_vec());
    let p = port.clone();
    sim.spawn("port", async move {
        ready.wait().await;
        for x in pieces {
            if !x.is_empty() {
                p.feed(x);
            }
        }
    });
    sim.run();
    let want = expected(stream);
    let got = got.with(std::mem::take);
    assert!(!cl.is_closed(), "the client closed although the port works");
    assert_eq!(got, want, "frames delivered (left) differ from the frames in the stream (right)");
    vp_rt::outcome(&format!("{}", want.len()));
    vp_rt::note(|| format!("{} bytes, {} frames", stream.len(), want.len()));
}

fn topic(kn: usize, sn: usize, seq: u32, body: &[u8]) -> Vec<u8> {
    frame(Down1::TOPIC_KEY, kn, seq, sn, body)
}

/// Building blocks of incoming streams, each ended by a zero (except the last).
fn block(kind: usize, ix: usize) -> Vec<u8> {
    static MADE: std::sync::OnceLock<Vec<Vec<Vec<u8>>>> = std::sync::OnceLock::new();
    MADE.get_or_init(|| (0..BLOCKS).map(|k| (0..4).map(|i| make_block(k, i)).collect()).collect())[kind][ix].clone()
}

fn make_block(kind: usize, ix: usize) -> Vec<u8> {
    let i = ix as u8 + 1;
    // a frame whose encoding has exactly `n` bytes, terminator included
    let exact = |n: usize| {
        let mut body = vec![i; 10];
        loop {
            let e = enc(&topic(8, 4, 7, &body));
            if e.len() == n {
                return e;
            }
            body.push(if e.len() % 7 == 0 { 0 } else { i });
            assert!(e.len() < n + 1, "no frame of that size");
        }
    };
    match kind {
        0 => enc(&topic(1, 1, i as u32, &[])),
        1 => enc(&topic(1, 1, i as u32, &[i, 0, i])),
        2 => enc(&topic(8, 4, i as u32, &[i; 3])),
        3 => vec![5, 1, 0],                           // code byte beyond the end
        4 => vec![0],                                 // line noise: a lone zero
        5 => [vec![i; 1100], vec![0]].concat(),       // over-long
        6 => exact(ROOM),
        7 => exact(ROOM + 1),
        8 => enc(&topic(2, 2, i as u32, &[i; 300])),  // runs longer than one COBS block
        9 => vec![3, 0xff, 0xff, 0],                  // decodes, but not to a header
        10 => [vec![0x41; 2500], vec![0]].concat(),   // much more than two buffers
        11 => enc(&topic(4, 1, i as u32, &[0, 0])),
        _ => exact(ROOM - 1),
    }
}
const BLOCKS: usize = 13;

fn blocks(sim: &Sim, n: usize) {
    let kinds: Vec<usize> = (0..n).map(|_| vp_rt::choose(BLOCKS, "block")).collect();
    let mut stream = vec![];
    let mut ends = vec![];
    for (i, k) in kinds.iter().enumerate() {
        stream.extend(block(*k, i));
        ends.push(stream.len());
    }
    receive(sim, &stream, |len| {
        let mut cuts = match vp_rt::choose(9, "chunks") {
            0 => vec![],
            1 => ends.clone(),
            2 => ends.iter().map(|e| e - 1).collect(),
            3 => ends.iter().map(|e| e + 1).collect(),
            4 => (1..len).step_by(1).take(40).collect(),
            5 => (1..len).map(|i| i * 7).collect(),
            6 => (1..len).map(|i| i * 1023).collect(),
            7 => (1..len).map(|i| i * 512).collect(),
            _ => (1..len).map(|i| i * 64).collect::<Vec<_>>(),
        };
        cuts.retain(|c| *c < len);
        cuts
    });
}

fn every_chunking(sim: &Sim, which: usize) {
    let s = match which {
        0 => [block(0, 0), block(1, 1), block(0, 2)].concat(),
        1 => [block(0, 0), block(3, 1), block(1, 2)].concat(),
        2 => [vec![0, 2], block(3, 1), block(4, 2), block(1, 3)].concat(),
        3 => [block(11, 0), block(0, 1)].concat(),
        _ => [block(9, 0), block(4, 0), enc(&topic(4, 4, 1, &[]))].concat(),
    };
    receive(sim, &s, |len| (1..len).filter(|_| vp_rt::choose(2, "cut") == 1).collect());
}

/// One cut at every position of a stream that fills the buffer.
fn one_cut(sim: &Sim, which: usize) {
    let s = match which {
        0 => [block(6, 0), block(0, 1), block(2, 2)].concat(),
        1 => [block(7, 0), block(0, 1), block(2, 2)].concat(),
        2 => [block(5, 0), block(1, 1)].concat(),
        _ => [block(8, 0), block(12, 1), block(0, 2)].concat(),
    };
    receive(sim, &s, |len| {
        let a = vp_rt::choose(len - 1, "cut") + 1;
        let b = vp_rt::choose(3, "second cut");
        let mut v = vec![a];
        if b > 0 && a + b < len {
            v.push(a + b);
        }
        v
    });
}

/// As many short frames as one read can hold, and runs of many more.
fn many(sim: &Sim, top: usize) {
    let n = vp_rt::choose(top, "frames") + 1;
    let shape = vp_rt::choose(3, "shape");
    let mut stream = vec![];
    for i in 0..n {
        stream.extend(match shape {
            0 => block(0, i % 4),
            1 => block([0, 4, 1, 3][i % 4], i % 4),
            _ => enc(&topic(1, 2, i as u32, &[])),
        });
    }
    receive(sim, &stream, |len| match vp_rt::choose(3, "chunks") {
        0 => vec![],
        1 => (1..len).map(|i| i * 1021).filter(|c| *c < len).collect(),
        _ => vec![len / 2],
    });
}

fn body_for(k: usize) -> Vec<u8> {
    match k {
        0 => vec![],
        1 => vec![0; 5],
        2 => vec![0x55; 240],
        3 => (0..=255).collect(),
        4 => vec![1; 252],
        5 => vec![1; 700],
        7 => vec![7; 1000],
        8 => (0..3000u32).map(|i| (i % 251) as u8).collect(),
        9 => vec![0; 1100],
        10 => (0..20_000u32).map(|i| (i % 251) as u8).collect(),
        11 => (0..70_000u32).map(|i| (i * 7 % 253) as u8).collect(),
        _ => vec![9, 0, 9],
    }
}

fn send(sim: &Sim, callers: &[&[usize]], short: bool, slow: bool) {
    let (cl, port) = open(2);
    port.st().short = short;
    port.st().slow = slow;
    for (i, bodies) in callers.iter().enumerate() {
        let c = cl.clone();
        let bodies = bodies.to_vec();
        sim.spawn(format!("publisher{i}"), async move {
            for (k, b) in bodies.iter().enumerate() {
                c.publish::<Up2>(VarSeq::Seq2((i * 100 + k) as u16), &Blob(body_for(*b))).await.expect("open");
            }
        });
    }
    sim.run();
    assert!(!cl.is_closed(), "the client closed although the port works");
    let out = port.st().written.clone();
    let mut segs: Vec<&[u8]> = out.split(|b| *b == 0).collect();
    assert_eq!(segs.pop(), Some(&[][..]), "the last frame is not terminated");
    let mut got: Vec<Vec<(usize, Vec<u8>)>> = vec![vec![]; callers.len()];
    for s in segs {
        let f = cobs_decode(s).expect("not a COBS frame");
        let (h, b) = decode(&f).expect("not a frame");
        assert_eq!(h.key, key_n(Up2::TOPIC_KEY, 8));
        assert_eq!(h.seq.len(), 2);
        let q = h.seq_u32() as usize;
        let b: Blob = postcard::from_bytes(b).expect("payload");
        got[q / 100].push((q % 100, b.0));
    }
    for (i, bodies) in callers.iter().enumerate() {
        let want: Vec<_> = bodies.iter().enumerate().map(|(k, b)| (k, body_for(*b))).collect();
        assert_eq!(got[i], want, "frames of publisher {i} on the line (left), published (right)");
    }
    vp_rt::outcome(&format!("{}", port.st().writes.len()));
}

/// The port fails while a call, a subscription and a publisher are active.
fn failing(sim: &Sim, tx: bool) {
    let (cl, port) = open(1);
    let (got, ready) = raw_reader(sim, &cl);
    let f = if vp_rt::choose(2, "failure") == 0 { Fail::Err } else { Fail::Zero };
    let before = vp_rt::choose(3, "before");
    let stream = [block(0, 0), block(1, 1), vec![9, 9, 9]].concat();
    let ends = [0, block(0, 0).len(), stream.len()];
    let (p, r) = (port.clone(), ready.clone());
    if tx {
        let limit = [0, 5, 20][before];
        port.st().tx_fail = Some((limit, f));
    } else {
        sim.spawn("port", async move {
            r.wait().await;
            if ends[before] > 0 {
                p.feed(stream[..ends[before]].to_vec());
            }
            p.fail_rx(f);
        });
    }
    let res: Sh<Vec<(usize, String)>> = Sh::new(vec![]);
    for i in 0..2 {
        let (c, rs, rdy) = (cl.clone(), res.clone(), ready.clone());
        sim.spawn(format!("caller{i}"), async move {
            rdy.wait().await;
            let a = c.send_resp::<Alpha>(&Ans { who: i as u8, what: 1 }).await;
            assert!(matches!(a, Err(HostErr::Closed)), "call without a reply returned {a:?}");
            rs.with(|v| v.push((i, "closed".into())));
        });
    }
    let (c, d) = (cl.clone(), Flag::default());
    let d2 = d.clone();
    sim.spawn("watcher", async move {
        c.wait_closed().await;
        d2.set();
    });
    sim.run();
    assert!(cl.is_closed(), "the client stays open although the port failed ({f:?})");
    assert!(d.is_set(), "waiting for close did not complete");
    assert_eq!(res.with(|v| v.len()), 2, "a call hangs on a failed port");
    assert_eq!(sim.unfinished(), Vec::<String>::new(), "tasks left hanging");
    assert!(port.st().dropped, "the port is still held");
    if !tx {
        let want = expected(&[block(0, 0), block(1, 1)].concat()[..ends[before].min(block(0, 0).len() + block(1, 1).len())]);
        let got = got.with(std::mem::take);
        // delivered before the failure, in order (the failure may overtake nothing)
        assert_eq!(got, want, "frames received before the failure");
    }
    vp_rt::outcome(&format!("{f:?}{before}"));
}

/// A call answered over the line by a server using `kn`-byte keys.
fn call(sim: &Sim) {
    let (cl, port) = open(4);
    let kn = [1, 2, 4, 8][vp_rt::choose(4, "key length")];
    let cut = vp_rt::choose(4, "cut");
    let ok = Flag::default();
    let o = ok.clone();
    let c = cl.clone();
    sim.spawn("caller", async move {
        assert_eq!(c.send_resp::<Gamma>(&1).await, Ok(17));
        assert_eq!(c.send_resp::<Gamma>(&2).await, Ok(34));
        o.set();
    });
    let p = port.clone();
    sim.spawn("server", async move {
        let mut seen = 0;
        for n in 0..2u32 {
            loop {
                let f = {
                    let s = p.st();
                    s.written[seen..].iter().position(|b| *b == 0).map(|e| s.written[seen..seen + e].to_vec())
                };
                if let Some(f) = f {
                    seen += f.len() + 1;
                    let f = cobs_decode(&f).expect("COBS");
                    let (h, b) = decode(&f).expect("header");
                    let mut e = enc(&encode(&Hdr { key: key_n(Gamma::RESP_KEY, kn), seq: h.seq }, &[b[0] * 17]));
                    let rest = e.split_off(cut.min(e.len()));
                    p.feed(e);
                    p.feed(rest);
                    break;
                }
                vp_rt::sleep(Duration::from_millis(1)).await;
            }
            let _ = n;
        }
    });
    sim.run_until(Duration::from_secs(5));
    assert!(ok.is_set(), "an answered call does not complete");
}

/// Each way to set a client up.
fn settings(sim: &Sim) {
    let s = crate::settings::choose();
    let baud = [9600, 115_200][vp_rt::choose(2, "baud")];
    let p = plug(&["/dev/ttyV1", "/dev/ttyV0", "/dev/ttyV"]).remove(1);
    let cl = match vp_rt::choose(2, "constructor") {
        0 => Client::try_new_serial_cobs("/dev/ttyV0", s.path, 2, baud, sk(s.seq)).expect("port opens"),
        _ => Client::new_serial_cobs("/dev/ttyV0", s.path, 2, baud, sk(s.seq)),
    };
    assert_eq!(p.st().baud, baud, "baud rate of the port");
    let ok = Flag::default();
    sim.spawn("caller", crate::settings::caller(cl, ok.clone()));
    sim.spawn("peer", async move {
        let mut seen = 0;
        let next = async || loop {
            let f = {
                let s = p.st();
                s.written[seen..].iter().position(|b| *b == 0).map(|e| s.written[seen..seen + e].to_vec())
            };
            if let Some(f) = f {
                seen += f.len() + 1;
                return cobs_decode(&f).expect("COBS");
            }
            vp_rt::sleep(Duration::from_millis(1)).await;
        };
        crate::settings::peer(s, next, async |f| p.feed(enc(&f))).await
    });
    sim.run_until(Duration::from_secs(5));
    assert!(ok.is_set(), "a call hangs");
}

pub fn run(a: Args) {
    let t = a.thorough;
    let mut r = Report::new(
        a,
        "model_checking",
        "each incoming stream with one way of chunking it, each way the port splits or delays writes, and each failure point is one evaluation; judged against an independent COBS decoder",
    );
    r.assume("tokio-serial is replaced by a port that reads and writes any number of bytes at a time; the operating system's serial driver is not modelled");
    r.explore(Config::new("settings", 0, 0).delays(), settings);
    r.explore(Config::new("calls answered over the line", 1, 0).delays(), call);
    for w in 0..5 {
        r.explore(Config::new(format!("every chunking of stream {w}"), 0, 0).delays(), |s| every_chunking(s, w));
    }
    for n in 1..=if t { 5 } else { 4 } {
        r.explore(Config::new(format!("streams of {n} blocks"), 0, 0).delays(), |s| blocks(s, n));
    }
    for w in 0..4 {
        r.explore(Config::new(format!("cuts in buffer-filling stream {w}"), 0, 0).delays(), |s| one_cut(s, w));
    }
    r.explore(Config::new("many short frames", 0, 0).delays(), |s| many(s, if t { 1000 } else { 400 }));
    r.explore(Config::new("long frames, short writes", 0, 2).delays(), |s| send(s, &[&[7, 0, 8, 9, 6, 7]], true, false));
    r.explore(Config::new("very long frames", 0, 1).delays(), |s| send(s, &[&[10, 0, 11, 6, 10]], true, false));
    r.explore(Config::new("one publisher, short writes", 0, if t { 4 } else { 3 }).delays(), |s| send(s, &[&[0, 1, 2, 3, 4, 5, 6]], true, false));
    r.explore(Config::new("two publishers, short and late writes", 1, 2).delays(), |s| send(s, &[&[6, 1], &[0, 4]], true, true));
    r.explore(Config::new("receiving fails", if t { 3 } else { 2 }, 0).delays(), |s| failing(s, false));
    r.explore(Config::new("sending fails", if t { 3 } else { 2 }, 0).delays(), |s| failing(s, true));
    r.finish()
}
