//! C26: the real client and the real server over the in-process channel transport.
use crate::common::*;
use postcard_rpc::header::{VarHeader, VarKey, VarSeq};
use postcard_rpc::host_client::test_channels::new_from_channels;
use postcard_rpc::host_client::{HostErr, RpcFrame};
use postcard_rpc::server::impls::test_channels::{dispatch_impl::*, ChannelWireRx, ChannelWireSpawn, ChannelWireTx, ChannelWireTxError};
use postcard_rpc::server::{Dispatch, Sender, ServerError, SpawnContext, WireTx as _};
use postcard_rpc::standard_icd::{LoggingTopic, WireError};
use postcard_rpc::{define_dispatch, endpoints, topics, Endpoint, Topic, TopicDirection};
use postcard_schema::Schema;
use serde::{Deserialize, Serialize};
use tokio::sync::mpsc;
use vp_rt::report::{Args, Report};
use vp_rt::{Config, Sim};

#[derive(Serialize, Deserialize, Schema, Debug, PartialEq, Clone)]
pub struct Bl(Vec<u8>);

endpoints! {
    list = EPS;
    | EndpointTy | RequestTy | ResponseTy | Path |
    | ---------- | --------- | ---------- | ---- |
    | Now        | Bl        | Bl         | "i/now" |
    | Bg         | Bl        | Bl         | "i/bg" |
    | Aw         | Bl        | Bl         | "i/aw" |
}
endpoints! {
    list = NOT_SERVED;
    | EndpointTy | RequestTy | ResponseTy | Path |
    | ---------- | --------- | ---------- | ---- |
    | Nope       | Bl        | Bl         | "i/nope" |
}
topics! {
    list = TIN;
    direction = TopicDirection::ToServer;
    | TopicTy | MessageTy | Path |
    | ------- | --------- | ---- |
    | Kick    | Bl        | "i/kick" |
}
topics! {
    list = TOUT;
    direction = TopicDirection::ToClient;
    | TopicTy | MessageTy | Path |
    | ------- | --------- | ---- |
    | Out     | Bl        | "i/out" |
}

/// What the handlers were given.
type Ran = Sh<Vec<(&'static str, Vec<u8>)>>;
/// Bytes of the sequence number the client was set up with.
pub struct Ctx(Ran, usize);
fn width(h: &VarHeader, want: usize) {
    let n = match h.seq_no {
        VarSeq::Seq1(_) => 1,
        VarSeq::Seq2(_) => 2,
        VarSeq::Seq4(_) => 4,
    };
    assert_eq!(n, want, "bytes of the sequence number in a request (left), configured (right)");
}
impl SpawnContext for Ctx {
    type SpawnCtxt = Ran;
    fn spawn_ctxt(&mut self) -> Ran {
        self.0.clone()
    }
}
fn answer(b: &Bl) -> Bl {
    Bl(b.0.iter().rev().map(|x| x ^ 0x5a).chain([b.0.len() as u8]).collect())
}
fn now(c: &mut Ctx, h: VarHeader, r: Bl) -> Bl {
    width(&h, c.1);
    c.0.with(|v| v.push(("now", r.0.clone())));
    answer(&r)
}
async fn aw(c: &mut Ctx, h: VarHeader, r: Bl) -> Bl {
    width(&h, c.1);
    vp_rt::yield_now().await;
    c.0.with(|v| v.push(("aw", r.0.clone())));
    answer(&r)
}
async fn bg(c: Ran, h: VarHeader, r: Bl, o: Sender<WireTxImpl>) {
    c.with(|v| v.push(("bg", r.0.clone())));
    vp_rt::yield_now().await;
    let _ = o.reply::<Bg>(h.seq_no, &answer(&r)).await;
}
fn kick(c: &mut Ctx, _h: VarHeader, r: Bl, _o: &Sender<WireTxImpl>) {
    c.0.with(|v| v.push(("kick", r.0.clone())));
}

define_dispatch! {
    app: App;
    spawn_fn: spawn_fn;
    tx_impl: WireTxImpl;
    spawn_impl: WireSpawnImpl;
    context: Ctx;
    endpoints: {
        list: EPS;
        | EndpointTy | kind     | handler |
        | ---------- | ----     | ------- |
        | Now        | blocking | now     |
        | Bg         | spawn    | bg      |
        | Aw         | async    | aw      |
    };
    topics_in: {
        list: TIN;
        | TopicTy | kind     | handler |
        | ------- | ----     | ------- |
        | Kick    | blocking | kick    |
    };
    topics_out: {
        list: TOUT;
    };
}

type Client = postcard_rpc::host_client::HostClient<postcard_rpc::standard_icd::WireError>;

struct Both {
    cl: Client,
    sender: Sender<WireTxImpl>,
    stopper: Option<Stopper>,
    ran: Ran,
    /// how the run loop ended
    ended: Sh<Option<String>>,
    /// ends the server without stopping it
    kill: Flag,
}

fn both(sim: &Sim, depth: usize, buf: usize, seq: usize, stoppable: bool) -> Both {
    let (to_srv, from_cli) = mpsc::channel::<Vec<u8>>(depth);
    let (to_cli, from_srv) = mpsc::channel::<Vec<u8>>(depth);
    let ran: Ran = Sh::new(vec![]);
    let app = App::new(Ctx(ran.clone(), seq), ChannelWireSpawn);
    let kkind = app.min_key_len();
    let settings = Settings { tx: ChannelWireTx::new(to_cli), rx: ChannelWireRx::new(from_cli), buf, kkind };
    let (mut srv, stopper) = if stoppable {
        let (s, t) = new_server_stoppable(app, settings);
        (s, Some(t))
    } else {
        (new_server(app, settings), None)
    };
    let sender = srv.sender();
    let ended = Sh::new(None);
    let kill = Flag::default();
    let (e2, k2) = (ended.clone(), kill.clone());
    sim.spawn("run", async move {
        let how = {
            let mut run = std::pin::pin!(srv.run());
            let mut k = std::pin::pin!(k2.wait());
            std::future::poll_fn(|cx| {
                use std::future::Future;
                use std::task::Poll::*;
                if k.as_mut().poll(cx).is_ready() {
                    return Ready("killed".to_string());
                }
                match run.as_mut().poll(cx) {
                    Ready(ServerError::TxFatal(e)) => Ready(format!("tx {e:?}")),
                    Ready(ServerError::RxFatal(e)) => Ready(format!("rx {e:?}")),
                    Pending => Pending,
                }
            })
            .await
        };
        drop(srv);
        e2.with(|e| *e = Some(how));
    });
    let cl = new_from_channels(to_srv, from_srv, sk(seq));
    Both { cl, sender, stopper, ran, ended, kill }
}

fn body(i: usize, n: usize) -> Bl {
    Bl((0..n).map(|k| (i * 31 + k * 7 + k / 256) as u8).collect())
}

/// One call of the given kind.
async fn call(cl: &Client, kind: usize, b: &Bl) -> Result<Bl, HostErr<postcard_rpc::standard_icd::WireError>> {
    match kind {
        0 => cl.send_resp::<Now>(b).await,
        1 => cl.send_resp::<Bg>(b).await,
        // not served
        3 => cl.send_resp::<Nope>(b).await,
        // a request whose body is cut off, numbered out of the way of the other calls
        4 => {
            let (seq_no, mut body) = (VarSeq::Seq4(0xabcd_ef80 + b.0.len() as u32), postcard::to_stdvec(b).unwrap());
            body.pop();
            let header = VarHeader { key: VarKey::Key8(Now::REQ_KEY), seq_no };
            cl.send_resp_raw(RpcFrame { header, body }, Now::RESP_KEY).await.map(|_| Bl(vec![]))
        }
        _ => cl.send_resp::<Aw>(b).await,
    }
}
const KINDS: [&str; 5] = ["now", "bg", "aw", "not served", "cut off"];

/// A message of every length against every receive buffer, then a call.
fn sizes(sim: &Sim, bufs: &[usize]) {
    let buf = bufs[vp_rt::choose(bufs.len(), "buffer")];
    let seq = [1, 2, 4][vp_rt::choose(3, "sequence width")];
    // discriminant, key of 8 bytes (no reply was seen), sequence number, length, payload
    let head = 1 + 8 + seq;
    let n = (buf + vp_rt::choose(24, "length")).saturating_sub(head + 12);
    let b = both(sim, 1 + vp_rt::choose(2, "depth"), buf, seq, vp_rt::choose(2, "stoppable") == 1);
    let (m1, m2) = (body(1, n), body(2, 1));
    let len = |m: &Bl| head + postcard::to_stdvec(m).unwrap().len();
    let sq = match seq {
        1 => VarSeq::Seq1(7),
        2 => VarSeq::Seq2(7),
        _ => VarSeq::Seq4(7),
    };
    let (fits, second) = (len(&m1) <= buf, len(&m2) <= buf);
    let (c, n1, n2) = (b.cl.clone(), m1.clone(), m2.clone());
    let ok = Flag::default();
    let o2 = ok.clone();
    sim.spawn("client", async move {
        c.publish::<Kick>(sq, &n1).await.expect("open");
        c.publish::<Kick>(sq, &n2).await.expect("open");
        if second {
            let r = c.send_resp::<Now>(&n2).await;
            assert!(matches!(&r, Ok(x) if *x == answer(&n2)), "call after a message of {} bytes, buffer of {buf}: {r:?}", n1.0.len());
            let r = c.send_resp::<Bg>(&n2).await;
            assert!(matches!(&r, Ok(x) if *x == answer(&n2)), "second call: {r:?}");
        }
        o2.set();
    });
    sim.run();
    assert!(ok.is_set(), "a call after a message of {} bytes hangs (buffer of {buf})", m1.0.len());
    let mut want = vec![];
    if fits {
        want.push(("kick", m1.0.clone()));
    }
    if second {
        want.extend([("kick", m2.0.clone()), ("now", m2.0.clone()), ("bg", m2.0.clone())]);
    }
    assert_eq!(b.ran.get(), want, "what the handlers got (left), a message of {} bytes in a frame of {} and a short one were sent, buffer of {buf}", n, len(&m1));
    assert_eq!(b.ended.get(), None, "the run loop ended");
    assert!(!b.cl.is_closed(), "the client closed");
    vp_rt::outcome(&format!("{fits} {second}"));
}

/// Calls, messages in both directions and logs at once.
fn carries(sim: &Sim, callers: &'static [&'static [(usize, usize)]], pubs: usize, outs: usize, logs: usize, depth: usize, stop: bool) {
    let b = both(sim, depth, 256, 1 + vp_rt::choose(2, "sequence width"), stop);
    let mut ids = vec![];
    for (i, cs) in callers.iter().enumerate() {
        let c = b.cl.clone();
        ids.push(sim.spawn(format!("caller{i}"), async move {
            for (k, (kind, n)) in cs.iter().enumerate() {
                let m = body(i * 10 + k + 1, *n);
                let r = call(&c, *kind, &m).await;
                let as_it_should = match kind {
                    3 => matches!(r, Err(HostErr::Wire(WireError::UnknownKey))),
                    4 => matches!(r, Err(HostErr::Wire(WireError::DeserFailed))),
                    _ => matches!(&r, Ok(x) if *x == answer(&m)),
                };
                assert!(as_it_should, "caller {i}, call {k} ({}, {n} bytes) returned {r:?}", KINDS[*kind]);
            }
        }));
    }
    if pubs > 0 {
        let c = b.cl.clone();
        ids.push(sim.spawn("publisher", async move {
            for k in 0..pubs {
                c.publish::<Kick>(VarSeq::Seq1(k as u8), &body(100 + k, k)).await.expect("open");
            }
        }));
    }
    let got: Sh<Vec<Vec<u8>>> = Sh::new(vec![]);
    let text: Sh<Vec<String>> = Sh::new(vec![]);
    if outs + logs > 0 {
        let (c, s, g, t) = (b.cl.clone(), b.sender.clone(), got.clone(), text.clone());
        ids.push(sim.spawn("device", async move {
            let mut so = c.subscribe_multi::<Out>(16).await.expect("open");
            let mut sl = c.subscribe_multi::<LoggingTopic>(16).await.expect("open");
            for k in 0..outs.max(logs) {
                if k < outs {
                    s.publish::<Out>(VarSeq::Seq4(k as u32), &body(200 + k, 3 + k)).await.expect("open");
                }
                if k < logs {
                    s.log_str(&format!("line {k}")).await.expect("open");
                }
            }
            for _ in 0..outs {
                let m = so.recv().await.expect("open");
                g.with(|g| g.push(m.0));
            }
            for _ in 0..logs {
                let m = sl.recv().await.expect("open");
                t.with(|t| t.push(m));
            }
        }));
    }
    sim.run();
    for id in &ids {
        assert!(sim.is_done(*id), "hangs although both ends are up: {:?}", sim.unfinished());
    }
    assert_eq!(got.get(), (0..outs).map(|k| body(200 + k, 3 + k).0).collect::<Vec<_>>(), "topic messages received");
    assert_eq!(text.get(), (0..logs).map(|k| format!("line {k}")).collect::<Vec<_>>(), "log messages received");
    let ran = b.ran.get();
    let kicks: Vec<_> = ran.iter().filter(|r| r.0 == "kick").map(|r| r.1.clone()).collect();
    assert_eq!(kicks, (0..pubs).map(|k| body(100 + k, k).0).collect::<Vec<_>>(), "messages the server handled");
    let mut calls: Vec<_> = ran.iter().filter(|r| r.0 != "kick").cloned().collect();
    let mut want: Vec<_> = callers.iter().enumerate().flat_map(|(i, cs)| cs.iter().enumerate().filter(|c| c.1 .0 < 3).map(move |(k, (kind, n))| (KINDS[*kind], body(i * 10 + k + 1, *n).0))).collect();
    calls.sort();
    want.sort();
    assert_eq!(calls, want, "calls the server handled");
    assert_eq!(b.ended.get(), None, "the run loop ended");
    assert!(!b.cl.is_closed());
    vp_rt::outcome(&format!("{:?}", ran.iter().map(|r| r.0).collect::<Vec<_>>()));
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Stopper,
    Killed,
    Close,
    Dropped,
}

/// One side ends, at any point.
fn ends(sim: &Sim, end: End, kinds: &'static [usize]) {
    let b = both(sim, 1, 64, 2, true);
    let Both { cl, sender, stopper, ran, ended, kill } = b;
    let mut ids = vec![];
    let told: Sh<bool> = Sh::new(false);
    let res: Sh<Vec<Option<bool>>> = Sh::new(vec![None; kinds.len()]);
    for (i, kind) in kinds.iter().enumerate() {
        let (c, t, r) = (cl.clone(), told.clone(), res.clone());
        ids.push(sim.spawn(format!("caller{i}"), async move {
            let m = body(i + 1, 3);
            let x = call(&c, *kind, &m).await;
            let ok = match x {
                Ok(x) => {
                    assert_eq!(x, answer(&m), "caller {i}");
                    true
                }
                Err(HostErr::Closed) => {
                    assert!(t.get(), "caller {i}: closed although nobody ended anything");
                    false
                }
                // the handler's reply could not be sent any more, which the server still reports
                Err(HostErr::Wire(postcard_rpc::standard_icd::WireError::SerFailed)) if t.get() && end == End::Stopper => false,
                Err(e) => panic!("caller {i}: {e:?}"),
            };
            r.with(|r| r[i] = Some(ok));
        }));
    }
    {
        let (s, t) = (sender, told.clone());
        ids.push(sim.spawn("device", async move {
            for k in 0..3 {
                match s.publish::<Out>(VarSeq::Seq1(k), &body(9, 2)).await {
                    Ok(()) => {}
                    Err(ChannelWireTxError::ChannelClosed) => assert!(t.get(), "sending fails although nobody ended anything"),
                }
            }
        }));
    }
    let closed = Flag::default();
    let keep: Sh<Option<Client>> = Sh::new(None);
    match end {
        End::Dropped => {
            // the last clone goes with the last caller
            told.with(|t| *t = true);
            drop(cl);
        }
        _ => {
            let (c, d) = (cl.clone(), closed.clone());
            ids.push(sim.spawn("watcher", async move {
                c.wait_closed().await;
                d.set();
            }));
            let (c, t) = (cl.clone(), told.clone());
            keep.with(|k| *k = Some(cl));
            let st = stopper.clone();
            sim.spawn_anytime("end", async move {
                t.with(|t| *t = true);
                vp_rt::log(|| format!("{end:?}"));
                match end {
                    End::Stopper => st.unwrap().stop(),
                    End::Killed => kill.set(),
                    _ => c.close(),
                }
            });
        }
    }
    sim.run();
    for id in &ids {
        assert!(sim.is_done(*id), "{end:?}: hangs: {:?}", sim.unfinished());
    }
    let e = ended.get();
    match end {
        End::Killed => assert_eq!(e.as_deref(), Some("killed")),
        _ => assert!(matches!(e.as_deref(), Some("rx ChannelClosed" | "tx ChannelClosed")), "{end:?}: the run loop ended with {e:?}"),
    }
    if let Some(c) = keep.with(|k| k.take()) {
        assert!(closed.is_set(), "{end:?}: waiting for close does not complete");
        assert!(c.is_closed(), "{end:?}: the client is not closed");
    } else {
        // nobody ended the connection while calls were under way
        assert!(res.get().iter().all(|r| *r == Some(true)), "a call failed: {:?}", res.get());
    }
    // every answered call was handled
    let n = res.get().iter().filter(|r| **r == Some(true)).count();
    assert!(ran.get().len() >= n && ran.get().len() <= kinds.len());
    vp_rt::outcome(&format!("{:?} {e:?} {}", res.get(), ran.get().len()));
}

/// Log messages of every length, with every key length.
fn logs(sim: &Sim) {
    let n = vp_rt::choose(300, "length");
    let kn = [1, 2, 4, 8][vp_rt::choose(4, "key length")];
    let (to_cli, mut from_srv) = mpsc::channel::<Vec<u8>>(64);
    let tx = ChannelWireTx::new(to_cli);
    let text: String = "a\u{e9}\u{20ac}\u{1f600}z".chars().cycle().take(n).collect();
    let long: String = text.repeat(20);
    let (a, b) = (text.clone(), long.clone());
    let id = sim.spawn("device", async move {
        let other = tx.clone();
        tx.send_log_str(kk(kn), &a).await.expect("open");
        other.send_log_fmt(kk(kn), format_args!("{}|{}", a, b.len())).await.expect("open");
        other.send_log_str(kk(kn), &b).await.expect("open");
        tx.send_log_fmt(kk(kn), format_args!("{b}")).await.expect("open");
    });
    sim.run();
    assert!(sim.is_done(id));
    for (i, want) in [text.clone(), format!("{text}|{}", long.len()), long.clone(), long].iter().enumerate() {
        let f = from_srv.try_recv().expect("a frame");
        let (h, b) = decode(&f).expect("a frame");
        assert_eq!(h.key, key_n(LoggingTopic::TOPIC_KEY, kn), "key of log message {i}");
        assert_eq!(h.seq_u32(), i as u32, "number of log message {i}");
        assert_eq!(b, postcard::to_stdvec(want).unwrap(), "log message {i} of {} bytes", want.len());
    }
    assert!(from_srv.try_recv().is_err());
    vp_rt::outcome(&format!("{n}"));
}

pub fn run(a: Args) {
    let mut r = Report::new(a, "model_checking", "distinct (what each caller got, order of handlers, how the run loop ended)");
    let t = r.thorough();
    let e = if t { 1 } else { 0 };
    r.explore(Config::new("every length x receive buffer", 0, 0).delays(), |s| sizes(s, if t { &[12, 16, 20, 32, 64, 200, 256, 1000, 16_400, 70_000] } else { &[16, 20, 64, 200, 1000, 70_000] }));
    r.explore(Config::new("log messages", 0, 0).delays(), logs);
    r.explore(Config::new("two callers", 1 + e, 1).delays(), |s| carries(s, &[&[(0, 3), (1, 40)], &[(2, 0), (0, 200)]], 0, 0, 0, 1, false));
    r.explore(Config::new("callers and publishers", 1 + e, 1).delays(), |s| carries(s, &[&[(1, 3)], &[(0, 4), (1, 4)]], 3, 0, 0, 1, true));
    r.explore(Config::new("both directions at once", 1 + e, 1).delays(), |s| carries(s, &[&[(1, 3), (2, 9)]], 2, 3, 2, 1, true));
    r.explore(Config::new("both directions at once, deeper", 1, 0).delays(), |s| carries(s, &[&[(0, 3), (2, 9)], &[(1, 1)]], 2, 3, 2, 2, false));
    r.explore(Config::new("calls the server refuses", 1 + e, 1).delays(), |s| carries(s, &[&[(3, 3), (0, 5), (4, 9)], &[(4, 2), (3, 1), (2, 0)]], 0, 0, 0, 1, false));
    r.explore(Config::new("calls the server refuses among others", 1 + e, 1).delays(), |s| carries(s, &[&[(0, 3), (3, 5)], &[(1, 2), (4, 1)]], 2, 0, 0, 2, true));
    for end in [End::Stopper, End::Killed, End::Close, End::Dropped] {
        r.explore(Config::new(format!("two calls, {end:?}"), 1 + e, 0).delays(), |s| ends(s, end, &[0, 1]));
        r.explore(Config::new(format!("two other calls, {end:?}"), 1 + e, 0).delays(), |s| ends(s, end, &[2, 1]));
        r.explore(Config::new(format!("one call, {end:?}"), 1 + e, 0).delays(), |s| ends(s, end, &[2]));
    }
    r.finish()
}
