//! C22: concurrent senders over the channel server, and stopping it.
use crate::common::*;
use crate::icd::Ans;
use postcard_rpc::header::{VarHeader, VarSeq};
use postcard_rpc::server::impls::test_channels::{dispatch_impl::*, ChannelWireRx, ChannelWireTx, ChannelWireTxError};
use postcard_rpc::server::{Dispatch, Sender, ServerError, SpawnContext};
use postcard_rpc::standard_icd::LoggingTopic;
use postcard_rpc::{define_dispatch, endpoints, topics, Endpoint, Topic, TopicDirection};
use tokio::sync::mpsc;
use vp_rt::report::{Args, Report};
use vp_rt::{Config, Sim};

endpoints! {
    list = EPS;
    | EndpointTy | RequestTy | ResponseTy | Path |
    | ---------- | --------- | ---------- | ---- |
    | Now        | Ans       | Ans        | "n/now" |
    | Bg         | Ans       | Ans        | "n/bg" |
    | Aw         | Ans       | Ans        | "n/aw" |
}
topics! {
    list = TIN;
    direction = TopicDirection::ToServer;
    | TopicTy | MessageTy | Path |
    | ------- | --------- | ---- |
    | Kick    | Ans       | "n/kick" |
}
topics! {
    list = TOUT;
    direction = TopicDirection::ToClient;
    | TopicTy | MessageTy | Path |
    | ------- | --------- | ---- |
    | Out     | Ans       | "n/out" |
}

#[derive(Clone, Default)]
pub struct St {
    /// handlers started / finished
    started: usize,
    ended: usize,
    /// (description of the frame, sent ok)
    results: Vec<(String, bool)>,
}

pub struct Ctx(Sh<St>);
impl SpawnContext for Ctx {
    type SpawnCtxt = Sh<St>;
    fn spawn_ctxt(&mut self) -> Sh<St> {
        self.0.clone()
    }
}

fn reply(r: &Ans) -> Ans {
    Ans { who: r.who + 100, what: r.what + 1 }
}
fn now(_c: &mut Ctx, _h: VarHeader, r: Ans) -> Ans {
    reply(&r)
}
async fn aw(_c: &mut Ctx, _h: VarHeader, r: Ans) -> Ans {
    vp_rt::yield_now().await;
    reply(&r)
}
async fn bg(c: Sh<St>, h: VarHeader, r: Ans, o: Sender<WireTxImpl>) {
    c.with(|c| c.started += 1);
    vp_rt::yield_now().await;
    let ok = closed_only(o.reply::<Bg>(h.seq_no, &reply(&r)).await);
    c.with(|c| {
        c.results.push((format!("bg {r:?}"), ok));
        c.ended += 1
    });
}
async fn kick(c: Sh<St>, _h: VarHeader, r: Ans, o: Sender<WireTxImpl>) {
    c.with(|c| c.started += 1);
    let m = Ans { who: 50, what: r.what };
    let ok = closed_only(o.publish::<Out>(VarSeq::Seq1(9), &m).await);
    c.with(|c| {
        c.results.push((format!("out 9 {m:?}"), ok));
        c.ended += 1
    });
}

define_dispatch! {
    app: App;
    spawn_fn: spawn_fn;
    tx_impl: WireTxImpl;
    spawn_impl: WireSpawnImpl;
    context: Ctx;
    endpoints: {
        list: EPS;
        | EndpointTy | kind     | handler |
        | ---------- | ----     | ------- |
        | Now        | blocking | now     |
        | Bg         | spawn    | bg      |
        | Aw         | async    | aw      |
    };
    topics_in: {
        list: TIN;
        | TopicTy | kind  | handler |
        | ------- | ----  | ------- |
        | Kick    | spawn | kick    |
    };
    topics_out: {
        list: TOUT;
    };
}

fn closed_only(r: Result<(), ChannelWireTxError>) -> bool {
    match r {
        Ok(()) => true,
        Err(ChannelWireTxError::ChannelClosed) => false,
    }
}

#[derive(Clone, Debug)]
struct P {
    /// requests: kind 0 now, 1 bg, 2 aw, 3 kick
    reqs: &'static [u8],
    pubs: usize,
    logs: usize,
    depth: usize,
    /// how the server is told to end
    stop: Stop,
    /// the client stops reading after this many frames
    reads: usize,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Stop {
    No,
    Stopper,
    /// the client closes its sending side
    InClosed,
    /// the client drops its receiver
    OutClosed,
}

fn scenario(sim: &Sim, p: P) {
    let (to_srv, from_cli) = mpsc::channel::<Vec<u8>>(8);
    let (to_cli, mut from_srv) = mpsc::channel::<Vec<u8>>(p.depth);
    let st: Sh<St> = Sh::new(St::default());
    let app = App::new(Ctx(st.clone()), postcard_rpc::server::impls::test_channels::ChannelWireSpawn);
    let kl = app.min_key_len();
    let n = kk_len(kl);
    let (mut srv, stopper) = new_server_stoppable(
        app,
        Settings { tx: ChannelWireTx::new(to_cli), rx: ChannelWireRx::new(from_cli), buf: 64, kkind: kl },
    );
    let sender = srv.sender();
    let stopped = Flag::default();
    let told: Sh<bool> = Sh::new(false);
    // requests are in the queue
    let keys = [Now::REQ_KEY, Bg::REQ_KEY, Aw::REQ_KEY, Kick::TOPIC_KEY];
    for (i, k) in p.reqs.iter().enumerate() {
        let b = postcard::to_stdvec(&Ans { who: i as u8, what: 10 * i as u32 }).unwrap();
        let f = frame(keys[*k as usize], 8, 0x30 + i as u32, 2, &b);
        to_srv.try_send(f).unwrap();
    }
    let run_res: Sh<Option<String>> = Sh::new(None);
    let rr = run_res.clone();
    let told2 = told.clone();
    let run_id = sim.spawn("run", async move {
        let e = srv.run().await;
        assert!(told2.get(), "the run loop ended although nobody stopped the server");
        rr.with(|r| {
            *r = Some(match e {
                ServerError::TxFatal(e) => format!("tx {e:?}"),
                ServerError::RxFatal(e) => format!("rx {e:?}"),
            })
        });
        drop(srv);
    });
    let mut ids = vec![];
    if p.pubs > 0 {
        let (s, st, n) = (sender.clone(), st.clone(), p.pubs);
        ids.push(sim.spawn("publisher", async move {
            for k in 0..n {
                let m = Ans { who: 60, what: k as u32 };
                let ok = closed_only(s.publish::<Out>(VarSeq::Seq2(k as u16), &m).await);
                st.with(|c| c.results.push((format!("out {k} {m:?}"), ok)));
            }
        }));
    }
    for l in 0..p.logs {
        let (s, st) = (sender.clone(), st.clone());
        ids.push(sim.spawn(format!("logger{l}"), async move {
            for k in 0..2 {
                let ok = if (k + l) % 2 == 0 {
                    closed_only(s.log_str(&format!("log {l} {k}")).await)
                } else {
                    closed_only(s.log_fmt(format_args!("log {} {}", l, k)).await)
                };
                st.with(|c| c.results.push((format!("log {l} {k}"), ok)));
            }
        }));
    }
    drop(sender);
    let got: Sh<Vec<Vec<u8>>> = Sh::new(vec![]);
    let out_closed = p.stop == Stop::OutClosed;
    {
        let (got, reads, told) = (got.clone(), p.reads, told.clone());
        let stopped = stopped.clone();
        sim.spawn("client", async move {
            for _ in 0..reads {
                match from_srv.recv().await {
                    Some(f) => got.with(|g| g.push(f)),
                    None => return,
                }
            }
            if out_closed {
                told.with(|t| *t = true);
                stopped.set();
                from_srv.close();
                while let Some(f) = from_srv.recv().await {
                    got.with(|g| g.push(f));
                }
                return;
            }
            // keep the channel open, without reading, until the end
            stopped.wait().await;
            while let Some(f) = from_srv.recv().await {
                got.with(|g| g.push(f));
            }
        });
    }
    let mut keep = None;
    match p.stop {
        Stop::Stopper => {
            let (told, s2) = (told.clone(), stopper.clone());
            sim.spawn_anytime("stop", async move {
                told.with(|t| *t = true);
                vp_rt::log(|| "stop".into());
                s2.stop();
            });
            keep = Some(to_srv);
        }
        Stop::InClosed => {
            let told = told.clone();
            sim.spawn_anytime("close", async move {
                told.with(|t| *t = true);
                drop(to_srv);
            });
        }
        _ => keep = Some(to_srv),
    }
    sim.run();
    // ----- at rest (the client may have stopped reading, but keeps the channel open) -----
    let s = st.get();
    match p.stop {
        Stop::Stopper => {
            assert!(sim.is_done(run_id), "the run loop hangs after the server was told to stop");
            for (i, id) in ids.iter().enumerate() {
                assert!(sim.is_done(*id), "sender {i} hangs after the server was told to stop: {:?}", sim.unfinished());
            }
            assert_eq!(s.started, s.ended, "a spawned handler hangs after the server was told to stop");
            assert!(run_res.get().unwrap().contains("ChannelClosed"));
        }
        Stop::InClosed if p.reads > 20 => {
            assert!(sim.is_done(run_id), "the run loop hangs although the client is gone");
            assert_eq!(s.started, s.ended, "a spawned handler hangs");
        }
        Stop::OutClosed => {
            for (i, id) in ids.iter().enumerate() {
                assert!(sim.is_done(*id), "sender {i} hangs although the client is gone");
            }
            assert_eq!(s.started, s.ended, "a spawned handler hangs although the client is gone");
        }
        Stop::No if p.reads > 20 => {
            assert!(!sim.is_done(run_id), "the run loop ended");
            for id in &ids {
                assert!(sim.is_done(*id), "a sender hangs");
            }
            assert_eq!(s.started, s.ended, "a spawned handler hangs");
            assert!(s.results.iter().all(|r| r.1), "a send failed on an open connection: {:?}", s.results);
        }
        _ => {}
    }
    told.with(|t| *t = true);
    drop(keep);
    stopped.set();
    sim.run();
    // ----- what arrived -----
    let s = st.get();
    let got = got.get();
    let mut names = vec![];
    let mut log_seqs = vec![];
    for f in &got {
        let (h, b) = decode(f).unwrap_or_else(|| panic!("malformed frame {f:02x?}"));
        assert_eq!(h.key.len(), n, "key length");
        let is = |k: postcard_rpc::Key| h.key == key_n(k, n);
        let d = |b: &[u8]| -> Ans {
            let (a, rest) = postcard::take_from_bytes(b).unwrap_or_else(|e| panic!("frame {f:02x?}: {e}"));
            assert!(rest.is_empty(), "surplus bytes in {f:02x?}");
            a
        };
        if is(LoggingTopic::TOPIC_KEY) {
            let (t, rest): (String, _) = postcard::take_from_bytes(b).expect("log text");
            assert!(rest.is_empty());
            log_seqs.push(h.seq_u32());
            names.push(t);
        } else if is(Out::TOPIC_KEY) {
            let a = d(b);
            assert_eq!(h.seq.len(), if h.seq_u32() == 9 { 1 } else { 2 });
            names.push(format!("out {} {a:?}", h.seq_u32()));
        } else if is(postcard_rpc::standard_icd::ERROR_KEY) {
            // the dispatcher could not send its reply (the server was just stopped) and reports that
            assert!(p.stop != Stop::No, "an error reply on an open connection: {f:02x?}");
            assert_eq!(b, [3], "error reply other than SerFailed: {f:02x?}");
            let i = (0..p.reqs.len()).find(|i| h.seq == seq_n(0x30 + *i as u32, 2));
            let i = i.unwrap_or_else(|| panic!("error reply to no request {f:02x?}"));
            assert!(matches!(p.reqs[i], 0 | 2), "error reply to a spawned request");
            names.push(format!("imm {i}"));
        } else {
            let a = d(b);
            let i = a.who.wrapping_sub(100) as usize;
            assert!(i < p.reqs.len(), "reply {a:?} to no request");
            assert_eq!(h.seq, seq_n(0x30 + i as u32, 2), "sequence number of the reply to request {i}");
            let k = [Now::RESP_KEY, Bg::RESP_KEY, Aw::RESP_KEY][p.reqs[i] as usize];
            assert!(is(k), "key of the reply to request {i}");
            assert_eq!(a.what, 10 * i as u32 + 1);
            names.push(match p.reqs[i] {
                1 => format!("bg {:?}", Ans { who: i as u8, what: 10 * i as u32 }),
                _ => format!("imm {i}"),
            });
        }
    }
    let mut u = names.clone();
    u.sort();
    u.dedup();
    assert_eq!(u.len(), names.len(), "a frame arrived twice: {names:?}");
    for (nm, ok) in &s.results {
        assert_eq!(names.contains(nm), *ok, "{nm}: reported sent={ok}, frames that arrived: {names:?}");
    }
    // nothing that nobody sent; immediate replies in request order
    for nm in &names {
        assert!(nm.starts_with("imm") || s.results.iter().any(|r| r.0 == *nm), "{nm} was never sent");
    }
    let imm: Vec<&String> = names.iter().filter(|n| n.starts_with("imm")).collect();
    assert!(imm.windows(2).all(|w| w[0] < w[1]), "replies out of order: {names:?}");
    // per-sender order
    let pos = |x: &str| names.iter().position(|n| n.starts_with(x));
    for (a, b) in [("out 0 Ans { who: 60", "out 1 Ans { who: 60"), ("log 0 0", "log 0 1"), ("log 1 0", "log 1 1")] {
        if let (Some(i), Some(j)) = (pos(a), pos(b)) {
            assert!(i < j, "{a} after {b}: {names:?}");
        }
    }
    let mut ls = log_seqs.clone();
    ls.sort();
    ls.dedup();
    assert_eq!(ls.len(), log_seqs.len(), "two log messages share a number: {log_seqs:?}");
    if p.stop == Stop::No && p.reads > 20 {
        let want = p.reqs.len() + p.pubs + 2 * p.logs;
        assert_eq!(names.len(), want, "frames that arrived: {names:?}");
    }
    vp_rt::outcome(&format!("{names:?} {:?}", run_res.get()));
    vp_rt::note(|| format!("{p:?}: {names:?}, run {:?}", run_res.get()));
}

/// Everything that can be sent through a server's sender, for every dispatcher, key length to
/// send with, sequence number and width.
fn headers(c: &mut vp_rt::report::Cases) {
    use crate::icd::{d1, d2, d4, d8, Log};
    use crate::mock::{drive, MRx, MSpawn, MTx};
    use crate::with_dev;
    use postcard_rpc::server::Server;
    use postcard_rpc::standard_icd::{WireError, ERROR_KEY};
    let v = |s: u32, n: usize| match n {
        1 => VarSeq::Seq1(s as u8),
        2 => VarSeq::Seq2(s as u16),
        _ => VarSeq::Seq4(s),
    };
    for n in [1usize, 2, 4, 8] {
        for kn in [1usize, 2, 4, 8] {
            for of_server in [true, false] {
                let (log, sp, tx) = (Log::default(), MSpawn::default(), MTx::default());
                let s = if of_server {
                    with_dev!(n, &log, &sp, |app, _k| Server::new(tx.clone(), MRx::new(vec![]), vec![0u8; 64], app, kk(kn)).sender())
                } else {
                    Sender::new(tx.clone(), kk(kn))
                };
                for (seq, sn) in crate::c12::seqs() {
                    c.at(|| format!("dispatcher {n}, sending {kn}-byte keys, sequence number {seq} in {sn} bytes, sender of the server: {of_server}"));
                    let a = Ans { who: 9, what: seq };
                    let b = postcard::to_stdvec(&a).unwrap();
                    tx.0.lock().unwrap().sent.clear();
                    drive(async {
                        s.publish::<Out>(v(seq, sn), &a).await.unwrap();
                        s.reply::<Now>(v(seq, sn), &a).await.unwrap();
                        s.reply_keyed(v(seq, sn), Kick::TOPIC_KEY, &a).await.unwrap();
                        s.error(v(seq, sn), WireError::UnknownKey).await.unwrap();
                        s.clone().publish::<Out>(v(seq, sn), &a).await.unwrap();
                        s.log_str("one").await.unwrap();
                        s.log_fmt(format_args!("{}-{}", 2, "x")).await.unwrap();
                    });
                    let want = [
                        frame(Out::TOPIC_KEY, kn, seq, sn, &b),
                        frame(Now::RESP_KEY, kn, seq, sn, &b),
                        frame(Kick::TOPIC_KEY, kn, seq, sn, &b),
                        frame(ERROR_KEY, kn, seq, sn, &postcard::to_stdvec(&WireError::UnknownKey).unwrap()),
                        frame(Out::TOPIC_KEY, kn, seq, sn, &b),
                        format!("log str {kn} one").into_bytes(),
                        format!("log fmt {kn} 2-x").into_bytes(),
                    ];
                    assert_eq!(tx.ok_frames(), want, "frames sent through the sender");
                    c.bulk(1);
                }
            }
        }
    }
}

pub fn run(a: Args) {
    let mut r = Report::new(a, "model_checking", "distinct (order of frames on the wire, how the run loop ended)");
    let th = r.thorough();
    let base = P { reqs: &[1, 0, 1], pubs: 0, logs: 0, depth: 1, stop: Stop::No, reads: 99 };
    r.cases("headers of everything a sender sends", headers);
    let list: Vec<(&str, P, u8, u8)> = vec![
        ("two spawned handlers and the loop", base.clone(), 2, 2),
        ("spawned handlers, publisher and logger", P { reqs: &[1, 0], pubs: 2, logs: 1, ..base.clone() }, 2, 1),
        ("two loggers and the loop", P { reqs: &[2], pubs: 0, logs: 2, ..base.clone() }, 2, 1),
        ("topic handlers and publisher, deeper channel", P { reqs: &[3, 1, 3], pubs: 2, depth: 2, ..base.clone() }, 2, 1),
        ("stop at any point, client reading", P { reqs: &[1, 0], pubs: 2, logs: 0, stop: Stop::Stopper, ..base.clone() }, 2, 1),
        ("stop at any point, client not reading", P { reqs: &[1, 2, 1], pubs: 2, logs: 1, stop: Stop::Stopper, reads: 0, ..base.clone() }, 2, 1),
        ("stop at any point, client stops reading", P { reqs: &[0, 1], pubs: 1, logs: 1, stop: Stop::Stopper, reads: 1, ..base.clone() }, 1, 1),
        ("client closes its sender", P { reqs: &[1, 0], pubs: 2, logs: 0, stop: Stop::InClosed, ..base.clone() }, 1, 1),
        ("client drops its receiver", P { reqs: &[1, 0], pubs: 2, logs: 1, stop: Stop::OutClosed, reads: 1, ..base.clone() }, 2, 1),
        ("client drops its receiver at once", P { reqs: &[0, 1, 2], pubs: 1, logs: 1, stop: Stop::OutClosed, reads: 0, ..base.clone() }, 2, 1),
    ];
    for (name, p, pb, db) in list {
        let e = if th { 1 } else { 0 };
        let mut c = Config::new(name, pb + e, db).delays();
        c.time_cap = std::time::Duration::from_secs(if th { 900 } else { 60 });
        r.explore(c, |s: &Sim| scenario(s, p.clone()));
    }
    r.assume("the channel transport's atomic log counter is one indivisible step (its file is test support and carries no hook)");
    r.finish()
}
