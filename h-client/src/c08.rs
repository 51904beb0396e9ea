//! C08: the subscription registry against a reference model.

use crate::common::*;
use crate::icd::*;
use postcard_rpc::host_client::{
    MultiSubRxError, MultiSubscription, RawMultiSubscription, RawSubscription, SubscribeError, Subscription,
};
use postcard_rpc::Topic;
use std::time::Duration;
use vp_rt::report::{Args, Report};
use vp_rt::{Config, Sim};

enum H {
    E(Subscription<Ans>),
    E2(Subscription<u32>),
    R(RawSubscription),
    M(MultiSubscription<Ans>),
    M2(MultiSubscription<u32>),
    N(RawMultiSubscription),
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Sk {
    Excl,
    Replace,
    Shared,
}

struct Model {
    topic: usize,
    kind: Sk,
    alive: bool,
    /// replaced by a later subscription
    ended: bool,
    expect: Vec<u32>,
    lost: u64,
}

async fn sub(c: &Client, topic: usize, kind: Sk, raw: bool, cap: usize) -> Result<H, SubscribeError> {
    let key = [Down1::TOPIC_KEY, Down2::TOPIC_KEY][topic];
    let io = |_| SubscribeError::IoClosed;
    #[allow(deprecated)]
    Ok(match (kind, raw, topic) {
        (Sk::Excl, true, _) => H::R(c.subscribe_exclusive_raw(key, cap).await?),
        (Sk::Replace, true, _) => H::R(c.subscribe_raw(key, cap).await.map_err(io)?),
        (Sk::Shared, true, _) => H::N(c.subscribe_multi_raw(key, cap).await.map_err(io)?),
        (Sk::Excl, _, 0) => H::E(c.subscribe_exclusive::<Down1>(cap).await?),
        (Sk::Replace, _, 0) => H::E(c.subscribe::<Down1>(cap).await.map_err(io)?),
        (Sk::Shared, _, 0) => H::M(c.subscribe_multi::<Down1>(cap).await.map_err(io)?),
        (Sk::Excl, _, _) => H::E2(c.subscribe_exclusive::<Down2>(cap).await?),
        (Sk::Replace, _, _) => H::E2(c.subscribe::<Down2>(cap).await.map_err(io)?),
        (Sk::Shared, _, _) => H::M2(c.subscribe_multi::<Down2>(cap).await.map_err(io)?),
    })
}

fn rawval(f: postcard_rpc::host_client::RpcFrame) -> u32 {
    f.header.seq_no.into()
}

async fn recv(h: &mut H) -> Option<u32> {
    recv_lag(h).await.unwrap_or_else(|n| panic!("shared subscription lagged: {n}"))
}

/// `Err(n)`: a shared subscription reports that it missed n messages
async fn recv_lag(h: &mut H) -> Result<Option<u32>, u64> {
    let m = |r: Result<u32, MultiSubRxError>| match r {
        Ok(v) => Ok(Some(v)),
        Err(MultiSubRxError::IoClosed) => Ok(None),
        Err(MultiSubRxError::Lagged(n)) => Err(n),
    };
    match h {
        H::E(s) => Ok(s.recv().await.map(|a| a.what)),
        H::E2(s) => Ok(s.recv().await),
        H::R(s) => Ok(s.recv().await.map(rawval)),
        H::M(s) => m(s.recv().await.map(|a| a.what)),
        H::M2(s) => m(s.recv().await),
        H::N(s) => m(s.recv().await.map(rawval)),
    }
}

fn msg(topic: usize, v: u32, kn: usize) -> Vec<u8> {
    if topic == 0 {
        frame(Down1::TOPIC_KEY, kn, v, 2, &postcard::to_stdvec(&Ans { who: 0, what: v }).unwrap())
    } else {
        frame(Down2::TOPIC_KEY, kn, v, 2, &postcard::to_stdvec(&v).unwrap())
    }
}

fn sequence(sim: &Sim, depth: usize, kn: usize, raw_too: bool, topics: usize, cap: usize) {
    let w = Wire::default();
    let cl = client(&w, 2, 4, Duration::ZERO);
    sim.run();
    let hs: Sh<Vec<Option<H>>> = Sh::new(vec![]);
    let mut model: Vec<Model> = vec![];
    let mut hist = String::new();
    for step in 0..depth {
        let live: Vec<usize> = (0..model.len()).filter(|i| model[*i].alive).collect();
        let kinds = if raw_too { 6 } else { 3 };
        let nsub = kinds * topics;
        let op = vp_rt::choose(nsub + topics + live.len(), "op");
        if op < nsub {
            let topic = op / kinds;
            let kind = [Sk::Excl, Sk::Replace, Sk::Shared][op % 3];
            let raw = op % kinds >= 3;
            hist.push_str(&format!("{kind:?}{}({topic}) ", if raw { "Raw" } else { "" }));
            let busy = model.iter().any(|m| m.topic == topic && m.kind != Sk::Shared && m.alive && !m.ended);
            let out: Sh<Option<Result<H, SubscribeError>>> = Sh::new(None);
            let (o2, c) = (out.clone(), cl.clone());
            sim.spawn("op", async move {
                let r = sub(&c, topic, kind, raw, cap).await;
                o2.with(|o| *o = Some(r));
            });
            sim.run();
            let r = out.with(|o| o.take()).unwrap_or_else(|| panic!("subscribe hangs after {hist}"));
            match r {
                Ok(h) => {
                    assert!(!(kind == Sk::Excl && busy), "a second exclusive subscription was granted: {hist}");
                    if kind == Sk::Replace {
                        for m in model.iter_mut().filter(|m| m.topic == topic && m.kind != Sk::Shared) {
                            m.ended = true;
                        }
                    }
                    model.push(Model { topic, kind, alive: true, ended: false, expect: vec![], lost: 0 });
                    hs.with(|v| v.push(Some(h)));
                }
                Err(SubscribeError::AlreadySubscribed) => {
                    assert!(kind == Sk::Excl && busy, "refused although no exclusive subscription is alive: {hist}");
                }
                Err(SubscribeError::IoClosed) => panic!("closed? {hist}"),
            }
        } else if op < nsub + topics {
            let topic = op - nsub;
            let v = step as u32 + 1;
            hist.push_str(&format!("msg({topic}) "));
            w.push(msg(topic, v, kn));
            sim.run();
            for m in model.iter_mut().filter(|m| m.topic == topic && m.alive && !m.ended) {
                // a full queue loses what comes; a shared one what is oldest
                if m.expect.len() < cap {
                    m.expect.push(v);
                } else if m.kind == Sk::Shared {
                    m.expect.remove(0);
                    m.lost += 1;
                    m.expect.push(v);
                }
            }
        } else {
            let i = live[op - nsub - topics];
            hist.push_str(&format!("drop({i}) "));
            let h = hs.with(|v| v[i].take());
            sim.spawn("dropper", async move { drop(h) });
            sim.run();
            model[i].alive = false;
        }
    }
    // read everything back
    let got: Sh<Vec<(Vec<u32>, bool, u64)>> = Sh::new(vec![(vec![], false, 0); model.len()]);
    for i in 0..model.len() {
        if !model[i].alive {
            continue;
        }
        let mut h = hs.with(|v| v[i].take()).unwrap();
        let got = got.clone();
        sim.spawn("reader", async move {
            loop {
                match recv_lag(&mut h).await {
                    Ok(Some(v)) => got.with(|g| g[i].0.push(v)),
                    Ok(None) => break,
                    Err(n) => got.with(|g| g[i].2 += n),
                }
            }
            got.with(|g| g[i].1 = true);
        });
    }
    sim.run();
    for (i, m) in model.iter().enumerate().filter(|m| m.1.alive) {
        let (g, e, lost) = got.get()[i].clone();
        assert_eq!(lost, m.lost, "messages subscription {i} ({:?} on topic {}) says it missed after {hist}", m.kind, m.topic);
        assert_eq!(g, m.expect, "subscription {i} ({:?} on topic {}) after {hist}", m.kind, m.topic);
        assert_eq!(e, m.ended, "subscription {i} ({:?} on topic {}) ended: {e}, expected {} after {hist}", m.kind, m.topic, m.ended);
    }
    cl.close();
    sim.run();
    for (i, m) in model.iter().enumerate().filter(|m| m.1.alive) {
        assert!(got.get()[i].1, "subscription {i} ({:?}) does not end with the connection after {hist}", m.kind);
    }
    vp_rt::note(|| hist.clone());
    vp_rt::outcome(&hist);
}

/// Several tasks subscribe exclusively at once; messages flow; losers see a
/// refusal, the winner gets everything after its subscription.
fn race_excl(sim: &Sim, n: usize, raw: bool) {
    let w = Wire::default();
    let cl = client(&w, 2, 4, Duration::ZERO);
    let won: Sh<Vec<usize>> = Sh::new(vec![]);
    let lost: Sh<usize> = Sh::new(0);
    let hold: Sh<Vec<H>> = Sh::new(vec![]);
    for i in 0..n {
        let (c, won, lost, hold) = (cl.clone(), won.clone(), lost.clone(), hold.clone());
        sim.spawn(format!("sub{i}"), async move {
            match sub(&c, 0, Sk::Excl, raw && i % 2 == 1, 8).await {
                Ok(h) => {
                    won.with(|w| w.push(i));
                    hold.with(|v| v.push(h));
                }
                Err(SubscribeError::AlreadySubscribed) => lost.with(|l| *l += 1),
                Err(e) => panic!("{e:?}"),
            }
        });
    }
    w.push(msg(0, 1, 8));
    sim.run();
    assert_eq!(won.get().len(), 1, "exclusive subscriptions granted at the same time: {:?}", won.get());
    assert_eq!(lost.get(), n - 1);
    vp_rt::outcome(&format!("{:?}", won.get()));
    drop(cl);
}

/// One task drops and immediately re-subscribes while messages arrive and a
/// shared subscriber of the same topic and one of another topic keep reading.
fn churn(sim: &Sim, kind: Sk, with_multi: bool, msgs: usize) {
    let w = Wire::default();
    let cl = client(&w, 2, 4, Duration::ZERO);
    let go = Flag::default();
    let other: Sh<Vec<u32>> = Sh::new(vec![]);
    let second: Sh<(usize, usize, Vec<u32>)> = Sh::new((usize::MAX, usize::MAX, vec![]));
    {
        let (c, go, other) = (cl.clone(), go.clone(), other.clone());
        sim.spawn("other", async move {
            let mut h = sub(&c, if with_multi { 0 } else { 1 }, Sk::Shared, false, 8).await.unwrap();
            drop(c);
            go.set();
            while let Some(v) = recv(&mut h).await {
                other.with(|o| o.push(v));
            }
        });
    }
    {
        let (c, go, second, w1) = (cl.clone(), go.clone(), second.clone(), w.clone());
        sim.spawn("churner", async move {
            go.wait().await;
            let h = sub(&c, 0, kind, false, 8).await.unwrap();
            drop(h);
            let from = w1.st().taken;
            let mut h = sub(&c, 0, kind, true, 8).await.unwrap_or_else(|e| panic!("re-subscribing after dropping was refused: {e:?}"));
            let to = w1.st().taken;
            second.with(|s| {
                s.0 = from;
                s.1 = to;
            });
            drop(c);
            while let Some(v) = recv(&mut h).await {
                second.with(|s| s.2.push(v));
            }
        });
    }
    {
        let (w2, go) = (w.clone(), go.clone());
        sim.spawn("server", async move {
            go.wait().await;
            for k in 0..msgs {
                w2.push(msg(0, 2 * k as u32, 8));
                w2.push(msg(1, 2 * k as u32 + 1, 8));
            }
        });
    }
    sim.run();
    let want: Vec<u32> = (0..msgs as u32).map(|k| if with_multi { 2 * k } else { 2 * k + 1 }).collect();
    assert_eq!(other.get(), want, "a subscription was disturbed by another one coming and going");
    let st = w.st();
    let (from, to, got) = second.get();
    assert!(to != usize::MAX);
    let id = |f: &Vec<u8>| decode(f).unwrap().0.seq_u32();
    let due: Vec<u32> = st.taken_log.iter().enumerate().filter(|(i, f)| *i >= to && id(f) % 2 == 0).map(|x| id(x.1)).collect();
    let may: Vec<u32> = st.taken_log.iter().enumerate().filter(|(i, f)| *i + 1 >= from && id(f) % 2 == 0).map(|x| id(x.1)).collect();
    assert!(got.ends_with(&due) && may.ends_with(&got), "re-subscribed: got {got:?}, owed {due:?}, at most {may:?}");
    vp_rt::outcome(&format!("{}", got.len()));
    drop(st);
    drop(cl);
}

pub fn run(a: Args) {
    let t = a.thorough;
    let mut r = Report::new(a, "model_checking", "each operation sequence (and each schedule of concurrent subscribers) is one evaluation, compared with a reference model of the registry");
    r.assume("operations of tokio's channels are atomic steps; sequentially consistent memory");
    let mut c = Config::new("all sequences, typed and raw, two topics", 0, 0).delays();
    c.max_execs = u64::MAX;
    r.explore(c, |s| sequence(s, if t { 6 } else { 4 }, 8, true, 2, 8));
    r.explore(Config::new("all sequences, typed and raw, one topic", 0, 0).delays(), |s| sequence(s, if t { 7 } else { 5 }, 8, true, 1, 8));
    r.explore(Config::new("all sequences, typed, one topic", 0, 0).delays(), |s| sequence(s, if t { 9 } else { 7 }, 8, false, 1, 8));
    for kn in [1, 2, 4] {
        r.explore(Config::new(format!("all sequences, {kn}-byte keys"), 0, 0).delays(), |s| sequence(s, if t { 6 } else { 5 }, kn, false, 2, 8));
    }
    for cap in [1, 2] {
        r.explore(Config::new(format!("all sequences, queues of {cap}"), 0, 0).delays(), |s| sequence(s, if t { 7 } else { 5 }, 8, true, 1, cap));
    }
    r.explore(Config::new("two exclusive subscribers at once", if t { 3 } else { 2 }, 1).delays(), |s| race_excl(s, 2, true));
    r.explore(Config::new("three exclusive subscribers at once", 2, if t { 1 } else { 0 }).delays(), |s| race_excl(s, 3, true));
    for k in [Sk::Excl, Sk::Replace, Sk::Shared] {
        for m in [true, false] {
            r.explore(Config::new(format!("{k:?} coming and going beside a shared one ({m})"), if t { 3 } else { 2 }, 0).delays(), |s| churn(s, k, m, 2));
            r.explore(Config::new(format!("{k:?} coming and going beside a shared one ({m}), branches"), 1, 1).delays(), |s| churn(s, k, m, 2));
        }
    }
    r.finish()
}
