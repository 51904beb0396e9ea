//! C07: what subscribers receive.

use crate::common::*;
use crate::icd::*;
use postcard_rpc::host_client::MultiSubRxError;
use postcard_rpc::{Endpoint, Topic};
use std::time::Duration;
use vp_rt::report::{Args, Report};
use vp_rt::{Config, Sim};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Excl,
    ExclRaw,
    Legacy,
    Multi,
    MultiRaw,
}
impl Kind {
    fn multi(self) -> bool {
        matches!(self, Kind::Multi | Kind::MultiRaw)
    }
}

/// What arrives: a message of topic 1, one that cannot be decoded, topic 2, a
/// stray reply, rubbish, or a pause.
#[derive(Clone, Copy, PartialEq, Debug)]
enum It {
    T1,
    Bad,
    T2,
    Stray,
    Junk,
    Wait(u64),
}

#[derive(Clone)]
struct Plan {
    subs: Vec<(Kind, usize)>,
    stream: Vec<It>,
    kn: usize,
    timeout: Duration,
    /// reads may be delayed (free choice each time)
    pauses: bool,
    /// how long a pause of the reader is
    pause: Duration,
    /// the stream starts without waiting for the subscriptions
    race: bool,
    /// a call in flight, answered in the middle of the stream
    call: bool,
}

#[derive(Clone, Default)]
struct Rec {
    sub: bool,
    /// frames the client had taken when subscribe was called / had returned
    from: usize,
    to: usize,
    /// Ok(id) or Err(lag); with the time of the read and frames taken at that moment
    got: Vec<(Result<u32, u64>, Duration, usize)>,
    ended: bool,
}

fn t1body(i: usize) -> Vec<u8> {
    postcard::to_stdvec(&Ans { who: 9, what: i as u32 }).unwrap()
}

enum Any {
    E(postcard_rpc::host_client::Subscription<Ans>),
    R(postcard_rpc::host_client::RawSubscription),
    M(postcard_rpc::host_client::MultiSubscription<Ans>),
    N(postcard_rpc::host_client::RawMultiSubscription),
}

fn raw_id(f: &postcard_rpc::host_client::RpcFrame, kn: usize) -> u32 {
    let hb = f.to_bytes();
    let (h, b) = decode(&hb).unwrap();
    assert_eq!(h.key, key_n(Down1::TOPIC_KEY, kn), "raw subscriber got a frame with a foreign key");
    match postcard::from_bytes::<Ans>(b) {
        Ok(a) => {
            assert_eq!(h.seq_u32(), a.what, "header and payload of a frame do not belong together");
            a.what
        }
        Err(_) => h.seq_u32(),
    }
}

fn scenario(sim: &Sim, p: &Plan) {
    let w = Wire::default();
    let cl = client(&w, 2, 4, p.timeout);
    let recs: Sh<Vec<Rec>> = Sh::new(vec![Rec::default(); p.subs.len()]);
    let go = Flag::default();
    let nready: Sh<usize> = Sh::new(0);
    let n = p.subs.len();
    let quiet = Flag::default();
    if p.race {
        go.set();
    }
    for (i, (kind, depth)) in p.subs.iter().copied().enumerate() {
        let (c, recs, go, nready, w1, pl) = (cl.clone(), recs.clone(), go.clone(), nready.clone(), w.clone(), p.clone());
        let quiet = quiet.clone();
        sim.spawn(format!("reader{i}"), async move {
            let from = w1.st().idle_at;
            #[allow(deprecated)]
            let mut s = match kind {
                Kind::Excl => Any::E(c.subscribe_exclusive::<Down1>(depth).await.unwrap()),
                Kind::ExclRaw => Any::R(c.subscribe_exclusive_raw(Down1::TOPIC_KEY, depth).await.unwrap()),
                Kind::Legacy => Any::E(c.subscribe::<Down1>(depth).await.unwrap()),
                Kind::Multi => Any::M(c.subscribe_multi::<Down1>(depth).await.unwrap()),
                Kind::MultiRaw => Any::N(c.subscribe_multi_raw(Down1::TOPIC_KEY, depth).await.unwrap()),
            };
            drop(c);
            let to = w1.st().taken;
            recs.with(|r| {
                r[i].sub = true;
                r[i].from = from;
                r[i].to = to;
            });
            nready.with(|x| *x += 1);
            if nready.get() == n {
                go.set();
            }
            loop {
                if pl.pauses && !quiet.is_set() && vp_rt::choose(2, "pause") == 1 {
                    vp_rt::sleep(pl.pause).await;
                }
                let r: Option<Result<u32, u64>> = match &mut s {
                    Any::E(s) => s.recv().await.map(|m| Ok(m.what)),
                    Any::R(s) => s.recv().await.map(|f| Ok(raw_id(&f, pl.kn))),
                    Any::M(s) => match s.recv().await {
                        Ok(m) => Some(Ok(m.what)),
                        Err(MultiSubRxError::IoClosed) => None,
                        Err(MultiSubRxError::Lagged(k)) => Some(Err(k)),
                    },
                    Any::N(s) => match s.recv().await {
                        Ok(f) => Some(Ok(raw_id(&f, pl.kn))),
                        Err(MultiSubRxError::IoClosed) => None,
                        Err(MultiSubRxError::Lagged(k)) => Some(Err(k)),
                    },
                };
                vp_rt::log(|| format!("reader{i}: {r:?}"));
                let Some(r) = r else { break };
                let taken = {
                    let mut st = w1.st();
                    st.reads[i] += 1;
                    st.taken
                };
                recs.with(|x| x[i].got.push((r, vp_rt::now(), taken)));
            }
            recs.with(|x| x[i].ended = true);
        });
    }
    let called: Sh<Option<bool>> = Sh::new(None);
    if p.call {
        let (c, called) = (cl.clone(), called.clone());
        sim.spawn("caller", async move {
            let r = c.send_resp::<Alpha>(&Ans { who: 3, what: 4 }).await;
            called.with(|x| *x = Some(r == Ok(Ans { who: 3, what: 4 })));
        });
    }
    let fin = Flag::default();
    {
        let (w2, pl, fin) = (w.clone(), p.clone(), fin.clone());
        sim.spawn("server", async move {
            go.wait().await;
            let kn = pl.kn;
            let half = pl.stream.len() / 2;
            for (i, it) in pl.stream.iter().enumerate() {
                if pl.call && i == half {
                    let f = w2.next().await;
                    let (h, b) = decode(&f).unwrap();
                    let b = b.to_vec();
                    w2.push(encode(&Hdr { key: key_n(Alpha::RESP_KEY, kn), seq: h.seq }, &b));
                }
                match it {
                    It::T1 => w2.push(frame(Down1::TOPIC_KEY, kn, i as u32, 2, &t1body(i))),
                    It::Bad => w2.push(frame(Down1::TOPIC_KEY, kn, i as u32, 2, &[0x80])),
                    It::T2 => w2.push(frame(Down2::TOPIC_KEY, kn, i as u32, 1, &[7])),
                    It::Stray => w2.push(frame(Alpha::RESP_KEY, kn, 900, 4, &t1body(i))),
                    It::Junk => w2.push(vec![0x4f, 1, 2]),
                    It::Wait(ms) => vp_rt::sleep(Duration::from_millis(*ms)).await,
                }
            }
            fin.set();
        });
    }
    sim.run();
    assert!(fin.is_set());
    // let every reader drain, then end the connection
    quiet.set();
    sim.run();
    {
        let st = w.st();
        assert_eq!(st.taken, st.idle_at, "the input worker is stuck");
        assert!(st.inq.is_empty(), "the input worker stopped taking frames");
    }
    if p.call {
        assert_eq!(called.get(), Some(true), "the call in flight did not get its answer");
    }
    cl.close();
    sim.run();

    // ----- oracle -----
    let st = w.st();
    // ids of the topic-1 messages in arrival order, with the index of the frame
    let arr: Vec<(usize, u32, bool)> = st
        .taken_log
        .iter()
        .enumerate()
        .filter_map(|(ix, f)| {
            let (h, b) = decode(f)?;
            if h.key == key_n(Down1::TOPIC_KEY, p.kn) {
                Some((ix, h.seq_u32(), b != [0x80]))
            } else {
                None
            }
        })
        .collect();
    let mut sig = String::new();
    for (i, r) in recs.get().iter().enumerate() {
        let (kind, depth) = p.subs[i];
        assert!(r.sub && r.ended, "subscription {i} did not end when the connection did");
        let raw = matches!(kind, Kind::ExclRaw | Kind::MultiRaw);
        sig.push_str(&format!("{:?} ", r.got.iter().map(|x| match x.0 { Ok(v) => v as i64, Err(l) => -(l as i64) }).collect::<Vec<_>>()));
        // first arrival this subscription is owed / may have
        let due = arr.iter().position(|a| a.0 >= r.to).unwrap_or(arr.len());
        let may = arr.iter().position(|a| a.0 >= r.from).unwrap_or(arr.len());
        if kind.multi() {
            // position in `arr` of the next message this receiver will see: fixed by the
            // first thing it got
            let total: usize = r.got.iter().map(|g| match g.0 { Ok(_) => 1, Err(l) => l as usize }).sum();
            let bad_possible = !raw;
            let mut ok = false;
            let mut why = String::new();
            // where the subscription began, within the race window
            'start: for start in may..=due {
                let mut pos = start;
                for g in &r.got {
                    match g.0 {
                        Ok(id) => {
                            while pos < arr.len() && bad_possible && !arr[pos].2 {
                                pos += 1;
                            }
                            if pos >= arr.len() || arr[pos].1 != id {
                                why = format!("received {id}, expected {:?}", arr.get(pos).map(|a| a.1));
                                continue 'start;
                            }
                            pos += 1;
                        }
                        Err(l) => {
                            if l == 0 {
                                why = "told of 0 missed messages".into();
                                continue 'start;
                            }
                            // messages skipped as undecodable before the lag are not visible;
                            // the lag counts from where the receiver stood
                            pos += l as usize;
                            // taken at the time of the read: arrivals that can have been sent by then
                            let sent = arr.iter().filter(|a| a.0 < g.2).count();
                            if pos > sent || sent - pos < depth {
                                why = format!("lost messages although only {} newer ones had arrived (buffer {depth})", sent.saturating_sub(pos));
                                continue 'start;
                            }
                        }
                    }
                }
                while pos < arr.len() && bad_possible && !arr[pos].2 {
                    pos += 1;
                }
                if pos != arr.len() {
                    why = format!("accounted for {} of {} messages", pos - start, arr.len() - start);
                    continue 'start;
                }
                ok = true;
                break;
            }
            assert!(ok, "shared subscription {i}: {why}; arrivals {arr:?}, got {:?} ({total})", r.got);
        } else {
            let ids: Vec<u32> = r.got.iter().map(|g| g.0.unwrap()).collect();
            let mut pos = may;
            let mut have = vec![false; arr.len()];
            for id in &ids {
                let k = (pos..arr.len()).find(|k| arr[*k].1 == *id);
                let k = k.unwrap_or_else(|| panic!("exclusive subscription {i} received {id} twice, out of order, or from before it existed; arrivals {arr:?}, got {ids:?}"));
                assert!(raw || arr[k].2, "an undecodable message was handed out");
                have[k] = true;
                pos = k + 1;
            }
            let first = have.iter().position(|h| *h).unwrap_or(arr.len());
            let start = due.min(first);
            for k in start..arr.len() {
                if have[k] || (!raw && !arr[k].2) {
                    continue;
                }
                // missing: was the queue full?
                let fx = arr[k].0;
                // (undecodable ones occupy the queue until the reader gets past them)
                let before = (start..k).filter(|j| have[*j] || (!raw && !arr[*j].2)).count();
                if p.timeout.is_zero() {
                    let read = st.reads_at_pop[fx][i];
                    assert!(before - read.min(before) >= depth, "exclusive subscription {i} (depth {depth}) missed message {} although its queue held only {} messages; arrivals {arr:?}, got {ids:?}", arr[k].1, before - read.min(before));
                } else {
                    let until = st.pop_time[fx] + p.timeout;
                    let at = st.idle_time.get(fx).copied().unwrap_or(Duration::MAX);
                    assert!(at >= until, "exclusive subscription {i}: message {} was dropped before the timeout had passed (arrived {:?}, given up {at:?})", arr[k].1, st.pop_time[fx]);
                    let read = r.got.iter().filter(|g| g.1 < until).count();
                    assert!(before - read.min(before) >= depth, "exclusive subscription {i} (depth {depth}) missed message {} although its queue had room within the timeout; arrivals {arr:?}, got {:?}", arr[k].1, r.got);
                }
            }
        }
    }
    vp_rt::outcome(&sig);
    vp_rt::note(|| sig.clone());
    drop(st);
    drop(cl);
}

/// Arrivals that look alike: the same frame again, the same header with another
/// body, the same body under another header or another topic.
fn alike(sim: &Sim, len: usize, kn: usize) {
    let w = Wire::default();
    let cl = client(&w, 2, 4, Duration::ZERO);
    let go = Flag::default();
    let n: Sh<usize> = Sh::new(0);
    let got: Sh<[Vec<(u32, u32)>; 4]> = Sh::new(Default::default());
    let want: Sh<Vec<(u32, u32)>> = Sh::new(vec![]);
    for k in 0..4 {
        let (c, n, go, got) = (cl.clone(), n.clone(), go.clone(), got.clone());
        sim.spawn(format!("reader{k}"), async move {
            let id = |f: &postcard_rpc::host_client::RpcFrame| {
                let b = f.to_bytes();
                let (h, b) = decode(&b).unwrap();
                (h.seq_u32(), postcard::from_bytes::<Ans>(b).unwrap().what)
            };
            let mut s = match k {
                0 => Any::E(c.subscribe_exclusive::<Down1>(64).await.unwrap()),
                1 => Any::R(c.subscribe_exclusive_raw(Down3::TOPIC_KEY, 64).await.unwrap()),
                2 => Any::M(c.subscribe_multi::<Down1>(64).await.unwrap()),
                _ => Any::N(c.subscribe_multi_raw(Down1::TOPIC_KEY, 64).await.unwrap()),
            };
            drop(c);
            n.with(|x| *x += 1);
            if n.get() == 4 {
                go.set();
            }
            loop {
                let r = match &mut s {
                    Any::E(s) => s.recv().await.map(|m| (0, m.what)),
                    Any::R(s) => s.recv().await.map(|f| id(&f)),
                    Any::M(s) => s.recv().await.ok().map(|m| (0, m.what)),
                    Any::N(s) => s.recv().await.ok().map(|f| id(&f)),
                };
                let Some(r) = r else { break };
                got.with(|g| g[k].push(r));
            }
        });
    }
    let (w2, want2) = (w.clone(), want.clone());
    sim.spawn("server", async move {
        go.wait().await;
        for _ in 0..len {
            let (key, tag, seq, what) = [
                (Down1::TOPIC_KEY, 1, 5, 1),
                (Down1::TOPIC_KEY, 1, 5, 2),
                (Down1::TOPIC_KEY, 1, 6, 1),
                (Down3::TOPIC_KEY, 3, 5, 1),
            ][vp_rt::choose(4, "arrival")];
            w2.push(frame(key, kn, seq, 2, &postcard::to_stdvec(&Ans { who: 1, what }).unwrap()));
            want2.with(|v| v.push((tag * 1000 + seq, what)));
        }
    });
    sim.run();
    let (got, want) = (got.get(), want.get());
    for k in 0..4 {
        let topic = if k == 1 { 3 } else { 1 };
        let raw = k % 2 == 1;
        let exp: Vec<(u32, u32)> =
            want.iter().filter(|x| x.0 / 1000 == topic).map(|x| (if raw { x.0 % 1000 } else { 0 }, x.1)).collect();
        assert_eq!(got[k], exp, "subscription {k} with room for everything: received (sequence number, value), against what arrived");
    }
    vp_rt::outcome(&format!("{want:?}"));
    cl.close();
    sim.run();
    drop(cl);
}

pub fn run(a: Args) {
    let t = a.thorough;
    let mut r = Report::new(a, "model_checking", "each explored schedule of an arrival stream against readers is one evaluation; judged on what each reader received against the arrivals the wire recorded");
    r.assume("operations of tokio's channels are atomic steps; sequentially consistent memory; virtual time");
    use It::*;
    use Kind::*;
    let z = Duration::ZERO;
    let ms = Duration::from_millis;
    let base = Plan { subs: vec![], stream: vec![], kn: 8, timeout: z, pauses: false, pause: ms(10), race: false, call: false };
    let x = |n: u8| if t { n + 2 } else { n + 1 };
    let streams: [&[It]; 3] = [&[T1, T2, T1, T1], &[T1, Bad, T1, Junk, T1], &[T1, Wait(5), T1, T1, Wait(5), Stray, T1]];
    for (si, s) in streams.iter().enumerate() {
        for k in [Excl, ExclRaw, Multi, MultiRaw, Legacy] {
            let pl = Plan { subs: vec![(k, 8)], stream: s.to_vec(), ..base.clone() };
            r.explore(Config::new(format!("{k:?}, stream {si}, ample queue"), x(1), 1).delays(), |s| scenario(s, &pl));
            let pl = Plan { subs: vec![(k, 8)], stream: s.to_vec(), race: true, ..base.clone() };
            r.explore(Config::new(format!("{k:?}, stream {si}, subscribing while it runs"), x(1), 1).delays(), |s| scenario(s, &pl));
        }
        for d in 1..=3 {
            for k in [ExclRaw, MultiRaw, Multi] {
                if k == Multi && si == 1 {
                    continue; // a typed reader does not see how many undecodable ones it passed
                }
                let pl = Plan { subs: vec![(k, d)], stream: s.to_vec(), pauses: true, ..base.clone() };
                r.explore(Config::new(format!("{k:?}, stream {si}, depth {d}, pausing reader"), x(1), 0).delays(), |s| scenario(s, &pl));
            }
        }
    }
    for kn in [1, 2, 4] {
        let pl = Plan { subs: vec![(Excl, 2), (Multi, 2)], stream: vec![T1, T2, T1, Stray], kn, ..base.clone() };
        r.explore(Config::new(format!("{kn}-byte keys"), x(1), 0).delays(), |s| scenario(s, &pl));
    }
    for to in [1u64, 10, 11, 100] {
        for d in 1..=2 {
            let pl = Plan { subs: vec![(Excl, d)], stream: vec![T1, T1, T1, T1], timeout: ms(to), pauses: true, ..base.clone() };
            r.explore(Config::new(format!("exclusive, depth {d}, full-queue timeout {to} ms"), x(1), 1).delays(), |s| scenario(s, &pl));
            let pl = Plan { subs: vec![(ExclRaw, d)], stream: vec![T1, T1, Wait(15), T1, T2, T1], timeout: ms(to), pauses: true, ..base.clone() };
            r.explore(Config::new(format!("raw exclusive, depth {d}, full-queue timeout {to} ms, gaps"), x(1), 0).delays(), |s| scenario(s, &pl));
        }
    }
    // timeouts of other orders of magnitude, with pauses shorter and longer than them
    let us = Duration::from_micros;
    for (to, pause) in [(us(500), us(300)), (us(500), us(700)), (us(1), ms(1)), (ms(30_000), ms(20_000)), (ms(30_000), ms(31_000)), (ms(3_600_000), ms(3_000_000))] {
        let pl = Plan { subs: vec![(ExclRaw, 1)], stream: vec![T1, T1, T1, T1], timeout: to, pauses: true, pause, ..base.clone() };
        r.explore(Config::new(format!("exclusive, full-queue timeout {to:?}, pauses of {pause:?}"), 1, 0).delays(), |s| scenario(s, &pl));
    }
    for kn in [1, 8] {
        r.explore(Config::new(format!("arrivals that look alike, {kn}-byte keys"), 0, 0).delays(), |s| alike(s, if t { 6 } else { 4 }, kn));
    }
    for (name, subs) in [
        ("exclusive + shared", vec![(ExclRaw, 1), (MultiRaw, 2)]),
        ("two shared", vec![(Multi, 2), (MultiRaw, 2)]),
        ("exclusive + two shared", vec![(Excl, 2), (Multi, 1), (Multi, 1)]),
    ] {
        let three = subs.len() > 2;
        let pl = Plan { subs: subs.clone(), stream: vec![T1, T1, T1, T1], pauses: !three, ..base.clone() };
        r.explore(Config::new(format!("{name}, overflow"), x(if three { 1 } else { 0 }), 0).delays(), |s| scenario(s, &pl));
        let pl = Plan { subs: subs.into_iter().map(|s| (s.0, 8)).collect(), stream: vec![T1, T2, T1], call: true, ..base.clone() };
        r.explore(Config::new(format!("{name}, with a call in flight"), x(1), 1).delays(), |s| scenario(s, &pl));
    }
    r.explore(Config::new("payloads of every order of size", 0, 0).delays(), crate::wide::sizes);
    r.explore(Config::new("frames nearly of a topic", 0, 0).delays(), crate::wide::subs);
    r.finish()
}
