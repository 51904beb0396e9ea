//! Frames that nearly belong to someone, and frames of every order of size.

use crate::common::*;
use crate::icd::*;
use postcard_rpc::header::{VarHeader, VarKey, VarSeq};
use postcard_rpc::host_client::{HostErr, RpcFrame};
use postcard_rpc::standard_icd::{WireError, ERROR_KEY};
use postcard_rpc::{Endpoint, Key, Topic};
use std::time::Duration;
use vp_rt::Sim;

/// Changes to a full key: none, single bits, and pairs that leave the 4-byte, the
/// 2-byte or only the 1-byte form as it was
const TWISTS: [[u8; 8]; 12] = [
    [0; 8],
    [1, 0, 0, 0, 0, 0, 0, 0],
    [0, 0, 0, 0, 0, 0, 0, 0x80],
    [0, 0, 0, 0x10, 0, 0, 0, 0],
    [1, 1, 0, 0, 0, 0, 0, 0],
    [0, 0, 0, 0, 0, 0, 0xff, 0xff],
    [1, 0, 1, 0, 0, 0, 0, 0],
    [0, 0, 0, 0, 0x40, 0, 0, 0x40],
    [1, 0, 0, 0, 1, 0, 0, 0],
    [0, 0, 0, 2, 0, 0, 0, 2],
    [0xff; 8],
    [1, 2, 3, 4, 5, 6, 7, 8],
];

fn near_key(full: Key) -> (Vec<u8>, String) {
    let t = vp_rt::choose(TWISTS.len(), "key altered");
    let kn = [8, 4, 2, 1][vp_rt::choose(4, "key length")];
    let mut k = full.to_bytes();
    for (a, b) in k.iter_mut().zip(TWISTS[t]) {
        *a ^= b;
    }
    (reduce(k, kn), format!("{t}/{kn}"))
}

fn near_seq(v: u32) -> Vec<u8> {
    let n = [4, 2, 1][vp_rt::choose(3, "width")];
    let v = [v, v.wrapping_add(1), v ^ 0x80, v.wrapping_add(1 << 8), v.wrapping_add(1 << 16), v ^ (1 << 31)][vp_rt::choose(6, "number altered")];
    seq_n(v, n)
}

/// Two calls wait; a frame arrives that is nearly a reply to one of them; then the
/// replies.
pub fn calls(sim: &Sim, sn: usize, earlier: u32) {
    let w = Wire::default();
    let cl = client(&w, sn, 4, Duration::ZERO);
    let got: Sh<Vec<Option<Result<Ans, HostErr<WireError>>>>> = Sh::new(vec![None, None]);
    let ready = Flag::default();
    {
        // numbers that need more than one byte
        let (c, r, w2) = (cl.clone(), ready.clone(), w.clone());
        sim.spawn("earlier", async move {
            for _ in 0..earlier {
                let mut f = Box::pin(c.send_resp::<Delta>(&()));
                std::future::poll_fn(|cx| {
                    let _ = std::future::Future::poll(f.as_mut(), cx);
                    std::task::Poll::Ready(())
                })
                .await;
                drop(f);
                w2.next().await;
            }
            r.set();
        });
    }
    sim.run();
    for i in 0..2u8 {
        let (c, g) = (cl.clone(), got.clone());
        sim.spawn(format!("caller{i}"), async move {
            let a = Ans { who: i, what: 100 + i as u32 };
            let r = if i == 0 { c.send_resp::<Alpha>(&a).await } else { c.send_resp::<Beta>(&a).await };
            g.with(|g| g[i as usize] = Some(r));
        });
    }
    sim.run();
    let mut sent: Vec<(u8, Hdr)> = w
        .frames()
        .iter()
        .skip(earlier as usize)
        .map(|f| {
            let (h, b) = decode(f).unwrap();
            (postcard::from_bytes::<Ans>(b).unwrap().who, h)
        })
        .collect();
    sent.sort_by_key(|s| s.0);
    let sent: Vec<Hdr> = sent.into_iter().map(|s| s.1).collect();
    assert_eq!(sent.len(), 2, "requests on the wire");
    let keys = [Alpha::RESP_KEY, Beta::RESP_KEY];
    let at = vp_rt::choose(2, "near which call");
    let err = vp_rt::choose(2, "reply or error") == 1;
    let (key, how) = near_key(if err { ERROR_KEY } else { keys[at] });
    let seq = near_seq(sent[at].seq_u32());
    let h = Hdr { key, seq };
    let legit = (0..2).any(|i| {
        h.seq_u32() == sent[i].seq_u32() && (h.key == key_n(keys[i], h.key.len()) || h.key == key_n(ERROR_KEY, h.key.len()))
    });
    if legit {
        cl.close();
        sim.run();
        return;
    }
    let body = if err { postcard::to_stdvec(&WireError::UnknownKey).unwrap() } else { postcard::to_stdvec(&Ans { who: 77, what: 7 }).unwrap() };
    w.push(encode(&h, &body));
    sim.run();
    let early = got.with(|g| g.iter().position(|x| x.is_some()));
    assert!(early.is_none(), "call {early:?} completed by a frame {h:02x?} that is no reply to it ({how}); the calls carry {sent:02x?}");
    let kn = [8, 4, 2, 1][vp_rt::choose(4, "key length of the replies")];
    for i in 0..2 {
        w.push(encode(&Hdr { key: key_n(keys[i], kn), seq: sent[i].seq.clone() }, &postcard::to_stdvec(&Ans { who: i as u8, what: 5 }).unwrap()));
    }
    sim.run();
    for i in 0..2 {
        match got.with(|g| g[i].take()) {
            Some(Ok(a)) => assert_eq!(a, Ans { who: i as u8, what: 5 }, "call {i} after a stray frame"),
            r => panic!("call {i} after a stray frame {h:02x?} and its reply: {r:?}"),
        }
    }
    vp_rt::outcome(&how);
    cl.close();
    sim.run();
}

/// Subscribers of one topic; a frame that is nearly of that topic, then one that is.
pub fn subs(sim: &Sim) {
    let w = Wire::default();
    let cl = client(&w, 2, 4, Duration::ZERO);
    let got: Sh<Vec<Vec<u32>>> = Sh::new(vec![vec![], vec![], vec![]]);
    for i in 0..3 {
        let (c, g) = (cl.clone(), got.clone());
        sim.spawn(format!("reader{i}"), async move {
            let id = |f: RpcFrame| postcard::from_bytes::<Ans>(&f.body).unwrap().what;
            match i {
                0 => {
                    let mut s = c.subscribe_exclusive::<Down1>(4).await.unwrap();
                    drop(c);
                    while let Some(a) = s.recv().await {
                        g.with(|g| g[i].push(a.what));
                    }
                }
                1 => {
                    let mut s = c.subscribe_multi::<Down1>(4).await.unwrap();
                    drop(c);
                    while let Ok(a) = s.recv().await {
                        g.with(|g| g[i].push(a.what));
                    }
                }
                _ => {
                    let mut s = c.subscribe_exclusive_raw(Down3::TOPIC_KEY, 4).await.unwrap();
                    drop(c);
                    while let Some(f) = s.recv().await {
                        g.with(|g| g[i].push(id(f)));
                    }
                }
            }
        });
    }
    sim.run();
    let (key, how) = near_key([Down1::TOPIC_KEY, Down3::TOPIC_KEY][vp_rt::choose(2, "near which topic")]);
    let n = key.len();
    let mut want: Vec<Vec<u32>> = vec![vec![]; 3];
    for (i, t) in [Down1::TOPIC_KEY, Down1::TOPIC_KEY, Down3::TOPIC_KEY].into_iter().enumerate() {
        if key == key_n(t, n) {
            want[i].push(7);
        }
        want[i].push(8);
    }
    w.push(encode(&Hdr { key, seq: near_seq(9) }, &postcard::to_stdvec(&Ans { who: 1, what: 7 }).unwrap()));
    let kn = [8, 4, 2, 1][vp_rt::choose(4, "key length of the messages")];
    for t in [Down1::TOPIC_KEY, Down3::TOPIC_KEY] {
        w.push(frame(t, kn, 9, 2, &postcard::to_stdvec(&Ans { who: 1, what: 8 }).unwrap()));
    }
    sim.run();
    assert_eq!(got.get(), want, "what the subscribers of two topics received, with a frame nearly of one of them ({how}) first");
    vp_rt::outcome(&how);
    cl.close();
    sim.run();
}

/// Payloads of every order of size: out and back in a call, out as a message, in
/// as a message of a topic.
pub fn sizes(sim: &Sim) {
    const N: [usize; 17] = [0, 1, 127, 128, 255, 256, 1023, 1024, 1025, 4096, 4097, 16_384, 65_535, 65_536, 70_000, 1 << 20, (1 << 20) + 1];
    let n = N[vp_rt::choose(N.len(), "size")];
    let big = |salt: usize| -> Vec<u8> { (0..n).map(|i| (i * 31 + i / 251 + salt) as u8).collect() };
    let w = Wire::default();
    let cl = client(&w, 4, 2, Duration::ZERO);
    let got: Sh<Vec<Vec<u8>>> = Sh::new(vec![]);
    for k in 0..2 {
        let (c, g) = (cl.clone(), got.clone());
        sim.spawn(format!("reader{k}"), async move {
            if k == 0 {
                let mut s = c.subscribe_exclusive_raw(Down1::TOPIC_KEY, 2).await.unwrap();
                drop(c);
                while let Some(f) = s.recv().await {
                    g.with(|g| g.push(f.body));
                }
            } else {
                let mut s = c.subscribe_multi_raw(Down1::TOPIC_KEY, 2).await.unwrap();
                drop(c);
                while let Ok(f) = s.recv().await {
                    g.with(|g| g.push(f.body));
                }
            }
        });
    }
    sim.run();
    let hdr = |key: Key| VarHeader { key: VarKey::Key8(key), seq_no: VarSeq::Seq4(3) };
    let (c, done) = (cl.clone(), Sh::new(false));
    let (d2, b0, b1, b2) = (done.clone(), big(0), big(1), big(2));
    sim.spawn("caller", async move {
        c.publish_raw(RpcFrame { header: hdr(Up1::TOPIC_KEY), body: b0.clone() }).await.unwrap();
        c.publish::<Up2>(VarSeq::Seq4(4), &Blob(b0)).await.unwrap();
        let r = c.send_resp_raw(RpcFrame { header: hdr(Alpha::REQ_KEY), body: b1 }, Alpha::RESP_KEY).await.unwrap();
        assert!(r.body == b2, "a reply of {} bytes came back as {} bytes or altered", b2.len(), r.body.len());
        d2.with(|d| *d = true);
    });
    sim.run();
    let want = vec![
        frame(Up1::TOPIC_KEY, 8, 3, 4, &big(0)),
        frame(Up2::TOPIC_KEY, 8, 4, 4, &postcard::to_stdvec(&Blob(big(0))).unwrap()),
        frame(Alpha::REQ_KEY, 8, 3, 4, &big(1)),
    ];
    let out = w.frames();
    assert!(out == want, "payloads of {n} bytes reach the wire as frames of {:?} bytes, due {:?}, or altered", out.iter().map(Vec::len).collect::<Vec<_>>(), want.iter().map(Vec::len).collect::<Vec<_>>());
    w.push(frame(Down1::TOPIC_KEY, 8, 1, 4, &big(4)));
    w.push(frame(Alpha::RESP_KEY, 8, 3, 4, &big(2)));
    sim.run();
    assert!(done.get(), "a call answered with {n} bytes did not complete");
    let got = got.get();
    assert!(got.len() == 2 && got.iter().all(|g| *g == big(4)), "a message of {n} bytes arrived as {:?} or altered", got.iter().map(Vec::len).collect::<Vec<_>>());
    vp_rt::outcome(&format!("{n}"));
    cl.close();
    sim.run();
}
