//! C04: sequence numbers are distinct and have the configured width.

use crate::common::*;
use crate::icd::*;
use postcard_rpc::header::{VarHeader, VarKey, VarSeq};
use postcard_rpc::host_client::RpcFrame;
use postcard_rpc::Endpoint;
use std::time::Duration;
use vp_rt::report::{Args, Report};
use vp_rt::{Config, Sim};

fn scenario(sim: &Sim, callers: &[usize], sn: usize, warm: usize, cancel: bool) {
    let w = Wire::default();
    let cl = client(&w, sn, 2, Duration::ZERO);
    let w2 = w.clone();
    sim.spawn("server", async move {
        loop {
            let f = w2.next().await;
            let (h, b) = decode(&f).expect("malformed");
            let r: Ans = postcard::from_bytes(b).unwrap();
            w2.push(encode(
                &Hdr { key: key_n(Alpha::RESP_KEY, 8), seq: h.seq },
                &postcard::to_stdvec(&r).unwrap(),
            ));
        }
    });
    let done: Sh<usize> = Sh::new(0);
    let start = Flag::default();
    if warm > 0 {
        let c = cl.clone();
        let start = start.clone();
        sim.spawn("warm", async move {
            for k in 0..warm {
                let r = c.send_resp::<Alpha>(&Ans { who: 255, what: k as u32 }).await;
                assert_eq!(r, Ok(Ans { who: 255, what: k as u32 }), "call {k} at width {sn}");
            }
            start.set();
        });
    } else {
        start.set();
    }
    for (i, n) in callers.iter().enumerate() {
        let c = cl.clone();
        let n = *n;
        let done = done.clone();
        let start = start.clone();
        sim.spawn(format!("caller{i}"), async move {
            start.wait().await;
            for k in 0..n {
                let a = Ans { who: i as u8, what: k as u32 };
                let call = c.send_resp::<Alpha>(&a);
                let r = if cancel && i == 0 { may_drop(call).await } else { Some(call.await) };
                if let Some(r) = r {
                    assert_eq!(r, Ok(a), "caller {i}: its call {k}, width {sn}");
                }
            }
            done.with(|d| *d += 1);
        });
    }
    sim.run();
    assert_eq!(done.get(), callers.len(), "a caller is stuck");
    let frames = w.frames();
    let total: usize = callers.iter().sum::<usize>() + warm;
    if !cancel {
        assert_eq!(frames.len(), total);
    }
    let cycle: u64 = 1 << (8 * sn as u64);
    let mut at: std::collections::HashMap<u32, usize> = Default::default();
    for (ix, f) in frames.iter().enumerate() {
        let (h, _) = decode(f).unwrap();
        assert_eq!(h.seq.len(), sn, "sequence number of frame {ix} is {} bytes wide on the wire, configured {sn}", h.seq.len());
        let v = h.seq_u32();
        if let Some(prev) = at.insert(v, ix) {
            // frames may be reordered among the concurrent callers only
            assert!(
                (ix - prev) as u64 + callers.len() as u64 >= cycle,
                "requests {prev} and {ix} both carry sequence number {v} (width {sn})"
            );
        }
    }
    let sig: Vec<u32> = frames.iter().rev().take(4).map(|f| decode(f).unwrap().0.seq_u32()).collect();
    vp_rt::outcome(&format!("{sig:?}"));
    vp_rt::note(|| format!("{} requests, last sequence numbers {sig:?}", frames.len()));
    drop(cl);
}

/// A raw request of every width is sent at the configured width and answered.
fn raw(sim: &Sim, from: usize, sn: usize, val: u32) {
    let w = Wire::default();
    let cl = client(&w, sn, 2, Duration::ZERO);
    let w2 = w.clone();
    sim.spawn("server", async move {
        loop {
            let f = w2.next().await;
            let (h, b) = decode(&f).expect("malformed");
            let b = b.to_vec();
            w2.push(encode(&Hdr { key: key_n(Alpha::RESP_KEY, 8), seq: h.seq }, &b));
        }
    });
    let ok: Sh<bool> = Sh::new(false);
    let ok2 = ok.clone();
    let c = cl.clone();
    sim.spawn("caller", async move {
        let seq_no = match from {
            1 => VarSeq::Seq1(val as u8),
            2 => VarSeq::Seq2(val as u16),
            _ => VarSeq::Seq4(val),
        };
        let r = c
            .send_resp_raw(
                RpcFrame { header: VarHeader { key: VarKey::Key8(Alpha::REQ_KEY), seq_no }, body: vec![7, 8] },
                Alpha::RESP_KEY,
            )
            .await;
        let r = r.unwrap_or_else(|e| panic!("raw request failed: {e:?}"));
        assert_eq!(r.body, vec![7, 8]);
        ok2.with(|o| *o = true);
    });
    sim.run();
    assert!(ok.get(), "raw request with a {from}-byte sequence number {val:#x} at width {sn} is never answered");
    let f = w.frames();
    let (h, _) = decode(&f[0]).unwrap();
    let fromv = seq_n(val, from);
    let mut want = fromv.clone();
    want.resize(4, 0);
    want.truncate(sn);
    assert_eq!(h.seq, want, "sequence number on the wire for {from}-byte {val:#x} at width {sn}");
    drop(cl);
}

pub fn run(a: Args) {
    let t = a.thorough;
    let mut r = Report::new(a, "model_checking", "each explored schedule of concurrent callers is one evaluation; judged on the headers put on the wire: width as configured, no value repeated within one cycle");
    r.assume("sequentially consistent memory; the counter's accesses are scheduling points (hook)");
    for sn in [1, 2, 4] {
        r.explore(Config::new(format!("two callers, two calls each, width {sn}"), if t { 3 } else { 2 }, 1).delays(), |s| scenario(s, &[2, 2], sn, 0, false));
        r.explore(Config::new(format!("three callers, width {sn}"), 2, if t { 1 } else { 0 }).delays(), |s| scenario(s, &[1, 1, 1], sn, 0, false));
    }
    r.explore(Config::new("two callers, any block order", 0, 0), |s| scenario(s, &[1, 1], 2, 0, false));
    r.explore(Config::new("abandoned call", 1, 1).delays(), |s| scenario(s, &[2, 2], 1, 0, true));
    for (sn, warm) in if t { vec![(1, 254), (2, 254), (4, 254), (1, 700)] } else { vec![(1, 254), (2, 254), (1, 300)] } {
        let mut c = Config::new(format!("around call {warm}, width {sn}"), 1, 0).delays();
        c.max_steps = 200_000;
        r.explore(c, |s| scenario(s, &[2, 2], sn, warm, false));
    }
    for sn in [1, 2, 4] {
        let mut c = Config::new(format!("past the 16-bit wrap, width {sn}"), 0, 0).delays();
        c.max_steps = 20_000_000;
        r.explore(c, |s| scenario(s, &[1], sn, 65_540, false));
    }
    for from in [1, 2, 4] {
        for sn in [1, 2, 4] {
            for v in [0u32, 1, 0xff, 0x100, 0x1234, 0xffff, 0x1_0000, 0x89ab_cdef, 0xffff_ffff] {
                r.explore(Config::new(format!("raw request {from}->{sn} {v:#x}"), 0, 0), |s| raw(s, from, sn, v));
            }
        }
    }
    r.finish()
}
