//! C06: closing ends everything.

use crate::common::*;
use crate::icd::*;
use postcard_rpc::header::{VarHeader, VarKey, VarSeq};
use postcard_rpc::host_client::{HostErr, MultiSubRxError, RpcFrame, SubscribeError};
use postcard_rpc::{Endpoint, Topic};
use std::time::Duration;
use vp_rt::report::{Args, Report};
use vp_rt::{Config, Sim};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ev {
    Close,
    RxFail,
    TxFail,
    DropAll,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Job {
    /// a call; the server answers iff the flag is set
    Call(bool),
    /// publishes, more than the queue takes
    Pubs(usize),
    /// exclusive subscription, read until it ends
    Excl,
    /// shared subscription, read until it ends
    Multi,
    /// subscribes but reads only after the connection has ended
    Lazy,
    /// waits for the client to be closed
    WaitClosed,
    /// subscribes / drops in a loop
    Churn,
}

#[derive(Clone)]
struct Plan {
    ev: Ev,
    jobs: Vec<Job>,
    /// wire accepts nothing
    stall: bool,
    depth: usize,
    timeout: Duration,
    msgs: usize,
}

fn scenario(sim: &Sim, p: &Plan) {
    let w = Wire::default();
    if p.stall {
        w.st().gate = Some(0);
    }
    let cl = client(&w, 2, p.depth, p.timeout);
    let begun: Sh<bool> = Sh::new(false);
    let ended = Flag::default();
    let sig: Sh<Vec<String>> = Sh::new(vec![]);
    // (topic frames processed by the client before .. , received)
    let ready: Sh<usize> = Sh::new(0);
    let go = Flag::default();
    let subs = p.jobs.iter().filter(|j| matches!(j, Job::Excl | Job::Multi | Job::Lazy)).count();
    let mut ids = vec![];
    // what each subscription has received: (since frame, count)
    let got: Sh<Vec<(usize, Vec<u32>)>> = Sh::new(vec![]);

    for (i, j) in p.jobs.iter().enumerate() {
        let c = cl.clone();
        let (begun, ready, go, ended, sig, got, w1) =
            (begun.clone(), ready.clone(), go.clone(), ended.clone(), sig.clone(), got.clone(), w.clone());
        let j = *j;
        let open_check = {
            let begun = begun.clone();
            move |what: &str| assert!(begun.get(), "{what} although nothing has closed the connection")
        };
        let dropall = p.ev == Ev::DropAll;
        ids.push(sim.spawn(format!("job{i}"), async move {
            match j {
                Job::Call(_) => {
                    let a = Ans { who: i as u8, what: 77 };
                    let r = c.send_resp::<Alpha>(&a).await;
                    match &r {
                        Ok(x) => assert_eq!(*x, a),
                        Err(HostErr::Closed) => open_check("a call failed as closed"),
                        e => panic!("call ended with {e:?}"),
                    }
                    sig.with(|s| s.push(format!("call{i}:{}", r.is_ok())));
                }
                Job::Pubs(n) => {
                    let mut k = 0;
                    while k < n {
                        if c.publish::<Up1>(VarSeq::Seq2(k as u16), &Ans { who: i as u8, what: k as u32 }).await.is_err() {
                            open_check("a publish failed as closed");
                            break;
                        }
                        k += 1;
                    }
                    sig.with(|s| s.push(format!("pub{i}:{k}")));
                }
                Job::Excl | Job::Lazy => {
                    match c.subscribe_exclusive::<Down1>(2).await {
                        Err(SubscribeError::IoClosed) => {
                            ready.with(|r| *r += 1);
                            open_check("subscribe failed as closed");
                            sig.with(|s| s.push(format!("sub{i}:closed")));
                        }
                        Err(SubscribeError::AlreadySubscribed) => panic!("already subscribed"),
                        Ok(mut sub) => {
                            ready.with(|r| *r += 1);
                            let slot = got.with(|g| {
                                g.push((w1.st().taken, vec![]));
                                g.len() - 1
                            });
                            if ready.get() == subs {
                                go.set();
                            }
                            if dropall {
                                drop(c);
                            }
                            if j == Job::Lazy {
                                ended.wait().await;
                            }
                            while let Some(m) = sub.recv().await {
                                got.with(|g| g[slot].1.push(m.what));
                            }
                            if !dropall {
                                open_check("a subscription ended");
                            }
                            sig.with(|s| s.push(format!("sub{i}:{}", got.with(|g| g[slot].1.len()))));
                        }
                    }
                }
                Job::Multi => match c.subscribe_multi::<Down1>(4).await {
                    Err(_) => {
                        ready.with(|r| *r += 1);
                        open_check("subscribe failed as closed");
                        sig.with(|s| s.push(format!("multi{i}:closed")));
                    }
                    Ok(mut sub) => {
                        ready.with(|r| *r += 1);
                        let slot = got.with(|g| {
                            g.push((w1.st().taken, vec![]));
                            g.len() - 1
                        });
                        if ready.get() == subs {
                            go.set();
                        }
                        if dropall {
                            drop(c);
                        }
                        loop {
                            match sub.recv().await {
                                Ok(m) => got.with(|g| g[slot].1.push(m.what)),
                                Err(MultiSubRxError::IoClosed) => break,
                                Err(e) => panic!("{e:?}"),
                            }
                        }
                        if !dropall {
                            open_check("a subscription ended");
                        }
                        sig.with(|s| s.push(format!("multi{i}:{}", got.with(|g| g[slot].1.len()))));
                    }
                },
                Job::WaitClosed => {
                    c.wait_closed().await;
                    open_check("wait_closed returned");
                    assert!(c.is_closed(), "wait_closed returned on an open client");
                }
                Job::Churn => {
                    for _ in 0..2 {
                        match c.subscribe_exclusive::<Down2>(1).await {
                            Ok(s) => drop(s),
                            Err(SubscribeError::IoClosed) => {
                                open_check("subscribe failed as closed");
                                break;
                            }
                            Err(e) => panic!("{e:?}"),
                        }
                        match c.subscribe_multi::<Down2>(1).await {
                            Ok(s) => drop(s),
                            Err(_) => {
                                open_check("subscribe failed as closed");
                                break;
                            }
                        }
                    }
                }
            }
        }));
    }
    let answer = p.jobs.iter().any(|j| *j == Job::Call(true));
    let w2 = w.clone();
    sim.spawn("server", async move {
        loop {
            let f = w2.next().await;
            let Some((h, b)) = decode(&f) else { panic!("malformed frame") };
            if answer && h.key == key_n(Alpha::REQ_KEY, h.key.len()) {
                w2.push(encode(&Hdr { key: key_n(Alpha::RESP_KEY, 8), seq: h.seq }, b));
            }
        }
    });
    if subs > 0 && p.msgs > 0 {
        let (w3, go, n) = (w.clone(), go.clone(), p.msgs);
        sim.spawn("topic", async move {
            go.wait().await;
            for k in 0..n {
                w3.push(frame(Down1::TOPIC_KEY, 8, k as u32, 1, &postcard::to_stdvec(&Ans { who: 0, what: k as u32 }).unwrap()));
            }
        });
    }
    let ev = p.ev;
    let keep = if ev == Ev::DropAll { None } else { Some(cl.clone()) };
    {
        let (w4, begun) = (w.clone(), begun.clone());
        let mut c = Some(cl);
        sim.spawn_anytime("event", async move {
            let c0 = c.take().unwrap();
            let jobs_closed = c0.is_closed();
            assert!(!jobs_closed, "client reports closed although nothing has closed it");
            begun.with(|b| *b = true);
            vp_rt::log(|| format!("event {ev:?}"));
            match ev {
                Ev::Close => c0.close(),
                Ev::RxFail => w4.fail_rx(),
                Ev::TxFail => w4.fail_tx(),
                Ev::DropAll => {}
            }
            drop(c0);
        });
    }
    // (timeouts of the full-queue kind may pass before the event's effects are complete)
    sim.run();
    ended.set();
    sim.run();
    // ----- at rest -----
    for (i, id) in ids.iter().enumerate() {
        assert!(sim.is_done(*id), "job {i} ({:?}) is still pending after the connection ended ({ev:?}); unfinished: {:?}", p.jobs[i], sim.unfinished());
    }
    {
        let st = w.st();
        for (i, id) in st.workers.iter().enumerate() {
            assert!(sim.is_done(*id), "background worker {i} is still running after {ev:?}");
        }
        assert_eq!(st.workers.len(), 2);
        assert!(st.tx_dropped && st.rx_dropped, "the transport is still held after {ev:?}");
        // buffered messages are handed out: every frame completely processed after the
        // subscription existed
        for (since, g) in got.get() {
            let done = st.idle_at;
            let due = st.taken_log[..done].iter().enumerate().filter(|(i, f)| *i >= since && decode(f).unwrap().0.key == key_n(Down1::TOPIC_KEY, 8)).count();
            let cap = if p.jobs.contains(&Job::Lazy) { 2 } else { usize::MAX };
            assert!(g.len() >= due.min(cap), "a subscription lost buffered messages on closing: got {g:?}, {due} were delivered before");
            assert!(g.windows(2).all(|w| w[0] < w[1]), "out of order: {g:?}");
        }
    }
    if let Some(c) = keep {
        assert!(c.is_closed(), "client not reported closed after {ev:?}");
        let before = w.st().out.len();
        let late: Sh<usize> = Sh::new(0);
        let l2 = late.clone();
        let c2 = c.clone();
        sim.spawn("late", async move {
            let r = c2.send_resp::<Alpha>(&Ans { who: 200, what: 1 }).await;
            assert_eq!(r, Err(HostErr::Closed), "call on a closed client");
            l2.with(|l| *l += 1);
            assert!(c2.publish::<Up1>(VarSeq::Seq1(0), &Ans { who: 1, what: 1 }).await.is_err(), "publish on a closed client succeeded");
            l2.with(|l| *l += 1);
            assert!(matches!(c2.subscribe_exclusive::<Down2>(1).await, Err(SubscribeError::IoClosed)), "exclusive subscribe on a closed client");
            assert!(matches!(c2.subscribe_exclusive_raw(Down2::TOPIC_KEY, 1).await, Err(SubscribeError::IoClosed)), "raw exclusive subscribe on a closed client");
            assert!(c2.subscribe_multi::<Down2>(1).await.is_err(), "shared subscribe on a closed client");
            assert!(c2.subscribe_multi_raw(Down2::TOPIC_KEY, 1).await.is_err(), "raw shared subscribe on a closed client");
            #[allow(deprecated)]
            {
                assert!(c2.subscribe::<Down2>(1).await.is_err(), "subscribe on a closed client");
                assert!(c2.subscribe_raw(Down2::TOPIC_KEY, 1).await.is_err(), "raw subscribe on a closed client");
            }
            l2.with(|l| *l += 1);
            c2.wait_closed().await;
            c2.clone().wait_closed().await;
            assert!(c2.is_closed());
            l2.with(|l| *l += 1);
        });
        sim.run();
        assert_eq!(late.get(), 4, "an operation on a closed client hangs");
        assert_eq!(w.st().out.len(), before, "something was sent on a closed connection");
        drop(c);
    }
    let mut s = sig.get();
    s.sort();
    vp_rt::outcome(&s.join(" "));
    vp_rt::note(|| format!("{ev:?}: {}", s.join(" ")));
}

/// Nothing closes: everything stays open.
fn open(sim: &Sim) {
    let w = Wire::default();
    let cl = client(&w, 2, 1, Duration::ZERO);
    let c = cl.clone();
    let w2 = w.clone();
    let phase: Sh<usize> = Sh::new(0);
    let ph = phase.clone();
    sim.spawn("user", async move {
        let a = Ans { who: 1, what: 2 };
        {
            let c2 = c.clone();
            let _ = may_drop(c2.send_resp::<Alpha>(&a)).await;
        }
        for f in [vec![], vec![0x0f], vec![0xff; 3], vec![0x20, 1], frame(Alpha::RESP_KEY, 8, 9, 4, &[])] {
            w2.push(f);
        }
        c.publish::<Up1>(VarSeq::Seq1(0), &a).await.unwrap();
        let s = c.subscribe_exclusive::<Down1>(1).await.unwrap();
        w2.push(frame(Down1::TOPIC_KEY, 8, 1, 1, &[1, 2]));
        drop(s);
        let s = c.subscribe_multi::<Down1>(1).await.unwrap();
        drop(s);
        w2.push(frame(Down1::TOPIC_KEY, 8, 1, 1, &[1, 2]));
        w2.push(frame(Down1::TOPIC_KEY, 8, 1, 1, &[0xff; 20]));
        ph.with(|p| *p = 1);
    });
    let w3 = w.clone();
    sim.spawn("server", async move {
        loop {
            let f = w3.next().await;
            let (h, b) = decode(&f).unwrap();
            if h.key == key_n(Alpha::REQ_KEY, h.key.len()) {
                w3.push(encode(&Hdr { key: key_n(Alpha::RESP_KEY, 8), seq: h.seq }, b));
            }
        }
    });
    let c = cl.clone();
    let wc = sim.spawn("waiter", async move { c.wait_closed().await });
    sim.run();
    assert_eq!(phase.get(), 1);
    assert!(!cl.is_closed(), "the client closed although nothing closed it");
    assert!(!sim.is_done(wc), "wait_closed returned although nothing closed it");
    let st = w.st();
    assert!(!st.rx_dropped && !st.tx_dropped);
    assert!(st.workers.iter().all(|x| !sim.is_done(*x)), "a worker ended although nothing closed the client");
    assert_eq!(st.idle_at, st.taken, "the input worker is stuck");
    assert!(st.inq.is_empty());
    drop(st);
    vp_rt::outcome("open");
}

/// A call that stays unanswered for more than a full cycle of sequence numbers,
/// so that a later one would have to share its number: nothing closes because of
/// that, and the waiting call still gets its own reply.
pub fn reuse(sim: &Sim, raw: bool) {
    let w = Wire::default();
    let cl = client(&w, 1, 2, Duration::ZERO);
    let a = |what| Ans { who: 7, what };
    let (c, first) = (cl.clone(), Sh::new(None));
    let f1 = first.clone();
    sim.spawn("first", async move {
        let r = c.send_resp::<Alpha>(&a(0)).await;
        f1.with(|f| *f = Some(r));
    });
    let (c, w2, done) = (cl.clone(), w.clone(), Sh::new(false));
    let d2 = done.clone();
    sim.spawn("others", async move {
        while w2.frames().is_empty() {
            vp_rt::yield_now().await;
        }
        let n0 = decode(&w2.frames()[0]).unwrap().0.seq[0];
        for i in 1..=if raw { 3 } else { 258 } {
            let r = if raw {
                let fr = RpcFrame {
                    header: VarHeader { key: VarKey::Key8(Alpha::REQ_KEY), seq_no: VarSeq::Seq1(n0) },
                    body: postcard::to_stdvec(&a(i)).unwrap(),
                };
                c.send_resp_raw(fr, Alpha::RESP_KEY).await.map(|f| postcard::from_bytes(&f.body).unwrap())
            } else {
                c.send_resp::<Alpha>(&a(i)).await
            };
            vp_rt::log(|| format!("call {i}: {r:?}"));
            match r {
                Ok(v) => assert_eq!(v, a(1000 + i), "reply to call {i}"),
                Err(HostErr::Closed) => panic!("call {i} ends with the closed error although nothing closed the client"),
                // its number is taken
                Err(_) => {}
            }
            assert!(!c.is_closed(), "the client closed at call {i} although nothing closed it");
        }
        w2.push(frame(Alpha::RESP_KEY, 8, n0 as u32, 1, &postcard::to_stdvec(&a(1000)).unwrap()));
        d2.with(|d| *d = true);
    });
    let w3 = w.clone();
    sim.spawn("server", async move {
        loop {
            let f = w3.next().await;
            let (h, b) = decode(&f).unwrap();
            let mut v: Ans = postcard::from_bytes(b).unwrap();
            if v.what > 0 {
                v.what += 1000;
                w3.push(encode(&Hdr { key: key_n(Alpha::RESP_KEY, 8), seq: h.seq }, &postcard::to_stdvec(&v).unwrap()));
            }
        }
    });
    sim.run();
    assert!(done.get(), "the later calls hang");
    assert!(!cl.is_closed(), "the client closed although nothing closed it");
    match first.with(|f| f.take()) {
        Some(Ok(v)) => assert_eq!(v, a(1000), "reply to the first call"),
        r => panic!("the first call: {r:?}"),
    }
    vp_rt::outcome("reuse");
}

/// A call is given up and never answered; later its number comes round again (or,
/// with raw calls, is used again at once): the later call completes.
pub fn abandoned(sim: &Sim, raw: bool) {
    let w = Wire::default();
    let cl = client(&w, if raw { 4 } else { 1 }, 2, Duration::ZERO);
    let a = |what| Ans { who: 7, what };
    // how long the caller waits: not even a poll, one, until the frame is out, longer
    let polls = vp_rt::choose(5, "polls before giving up");
    let (c, w2, done) = (cl.clone(), w.clone(), Sh::new(false));
    let d2 = done.clone();
    sim.spawn("caller", async move {
        let go = |i: u32, seq: u32| {
            let c = c.clone();
            async move {
                if raw {
                    let fr = RpcFrame {
                        header: VarHeader { key: VarKey::Key8(Alpha::REQ_KEY), seq_no: VarSeq::Seq4(seq) },
                        body: postcard::to_stdvec(&a(i)).unwrap(),
                    };
                    c.send_resp_raw(fr, Alpha::RESP_KEY).await.map(|f| postcard::from_bytes::<Ans>(&f.body).unwrap())
                } else {
                    c.send_resp::<Alpha>(&a(i)).await
                }
            }
        };
        {
            let mut f = Box::pin(go(0, 9));
            for _ in 0..polls {
                let done = std::future::poll_fn(|cx| std::task::Poll::Ready(std::future::Future::poll(f.as_mut(), cx).is_ready())).await;
                assert!(!done, "an unanswered call completes");
                for _ in 0..4 {
                    vp_rt::yield_now().await;
                }
            }
        }
        for i in 1..=if raw { 3 } else { 258 } {
            let r = go(i, 9).await;
            vp_rt::log(|| format!("call {i}: {r:?}"));
            match r {
                Ok(v) => assert_eq!(v, a(1000 + i), "reply to call {i}"),
                e => panic!("call {i} was answered and gives {e:?}"),
            }
        }
        d2.with(|d| *d = true);
    });
    sim.spawn("server", async move {
        loop {
            let f = w2.next().await;
            let (h, b) = decode(&f).unwrap();
            let mut v: Ans = postcard::from_bytes(b).unwrap();
            if v.what > 0 {
                v.what += 1000;
                w2.push(encode(&Hdr { key: key_n(Alpha::RESP_KEY, 8), seq: h.seq }, &postcard::to_stdvec(&v).unwrap()));
            }
        }
    });
    sim.run();
    assert!(done.get(), "a call whose number an abandoned call had used hangs although it was answered");
    assert!(!cl.is_closed(), "the client closed although nothing closed it");
    vp_rt::outcome("abandoned");
}

pub fn run(a: Args) {
    let t = a.thorough;
    let mut r = Report::new(a, "model_checking", "each explored schedule with the ending event started at one scheduling point is one evaluation; every scheduling point is used; judged at rest");
    r.assume("operations of tokio's channels and maitake's wait queue are atomic at the granularity of the instrumented points; sequentially consistent memory");
    let z = Duration::ZERO;
    let evs = [Ev::Close, Ev::RxFail, Ev::TxFail];
    use Job::*;
    let p = |n: u8| if t { n + 1 } else { n };
    for ev in evs {
        // a send in progress is needed for a send failure to be seen
        let mk = |jobs: &[Job], stall, depth, timeout, msgs| Plan { ev, jobs: jobs.to_vec(), stall, depth, timeout, msgs };
        r.explore(Config::new(format!("{ev:?}: pending call"), p(1), 1).delays(), |s| scenario(s, &mk(&[Call(false), WaitClosed], ev == Ev::TxFail, 1, z, 0)));
        r.explore(Config::new(format!("{ev:?}: answered call, publishes"), p(1), 0).delays(), |s| {
            // a failing send needs a later message to show itself: without one nothing ends
            scenario(s, &mk(&[Call(true), Pubs(if ev == Ev::TxFail { 2 } else { 1 })], ev == Ev::TxFail, 1, z, 0))
        });
        r.explore(Config::new(format!("{ev:?}: full queue"), p(1), 1).delays(), |s| scenario(s, &mk(&[Pubs(4), Call(false)], true, 1, z, 0)));
        r.explore(Config::new(format!("{ev:?}: full queue, two callers"), p(1), if t { 1 } else { 0 }).delays(), |s| scenario(s, &mk(&[Call(false), Call(false), Pubs(2)], true, 1, z, 0)));
        let stall = ev == Ev::TxFail;
        let extra = if stall { Pubs(1) } else { WaitClosed };
        r.explore(Config::new(format!("{ev:?}: subscriptions"), p(1), if t { 1 } else { 0 }).delays(), |s| scenario(s, &mk(&[Excl, Multi, extra], stall, 1, z, 2)));
        r.explore(Config::new(format!("{ev:?}: subscribing"), p(1), 1).delays(), |s| scenario(s, &mk(&[Churn, extra], stall, 1, z, 0)));
        r.explore(Config::new(format!("{ev:?}: subscriber not reading, long timeout"), p(1), 0).delays(), |s| {
            scenario(s, &mk(&[Lazy, extra], stall, 1, Duration::from_secs(3600), 4))
        });
        r.explore(Config::new(format!("{ev:?}: subscriber not reading, churn"), p(1), 0).delays(), |s| {
            scenario(s, &mk(&[Lazy, Churn, extra], stall, 1, Duration::from_secs(3600), 4))
        });
    }
    let mk = |jobs: &[Job]| Plan { ev: Ev::DropAll, jobs: jobs.to_vec(), stall: false, depth: 2, timeout: z, msgs: 2 };
    r.explore(Config::new("drop all: call and publish", p(1), 1).delays(), |s| scenario(s, &mk(&[Call(true), Pubs(2)])));
    r.explore(Config::new("drop all: subscriptions", p(1), 0).delays(), |s| scenario(s, &mk(&[Excl, Multi])));
    r.explore(Config::new("drop all: mixed", p(1), if t { 1 } else { 0 }).delays(), |s| scenario(s, &mk(&[Excl, Call(true), Churn])));
    r.explore(Config::new("nothing closes", p(1), 1).delays(), open);
    r.explore(Config::new("a sequence number still in use comes round again", 0, 0).delays(), |s| reuse(s, false));
    r.explore(Config::new("raw calls with a sequence number in use", p(1), 0).delays(), |s| reuse(s, true));
    r.finish()
}
