//! C19: the raw USB client over a scripted device.

use crate::common::*;
use crate::icd::*;
use nusb::mock::{plug, Dev, DevSpec, EpSpec};
use nusb::transfer::{EndpointType, TransferError};
use postcard_rpc::header::VarSeq;
use postcard_rpc::host_client::HostErr;
use postcard_rpc::standard_icd::ERROR_PATH;
use postcard_rpc::Topic;
use std::sync::Arc;
use std::time::Duration;
use vp_rt::report::{Args, Report};
use vp_rt::{Config, Sim};

const OUT: u8 = 0x02;
const IN: u8 = 0x83;
/// Consecutive failures of the IN endpoint that are recovered.
const RETRIES: usize = 10;
/// Largest incoming transfer.
const LARGEST: usize = 1024;

fn ep(addr: u8, ty: EndpointType, mps: usize) -> EpSpec {
    EpSpec { addr, ty, mps }
}

fn spec(mps: usize) -> DevSpec {
    use EndpointType::*;
    DevSpec {
        serial: Some("1".into()),
        interfaces: vec![
            (2, vec![vec![ep(0x81, Interrupt, 8)]]),
            (
                0xff,
                vec![vec![
                    ep(0x86, Isochronous, 24),
                    ep(0x84, Interrupt, 16),
                    ep(OUT, Bulk, mps),
                    ep(IN, Bulk, if mps == 512 { 64 } else { 512 }),
                    ep(0x05, Interrupt, 16),
                    ep(0x07, Isochronous, 24),
                ]],
            ),
        ],
        ..Default::default()
    }
}

fn make(d: &str, depth: usize) -> Result<Client, String> {
    Client::try_new_raw_nusb(|i| i.serial_number() == Some(d), ERROR_PATH, depth, sk(2))
}

fn open(mps: usize, depth: usize) -> (Client, Arc<Dev>) {
    let other = DevSpec { serial: Some("2".into()), ..spec(32) };
    let d = plug(vec![other, spec(mps)]).pop().unwrap();
    (make("1", depth).expect("device opens"), d)
}

// ---------------------------------------------------------------------------
// incoming transfers
// ---------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Ev {
    Data,
    Empty,
    Stall,
    Unknown,
    Fault,
    Cancelled,
    Disconnect,
}
use Ev::*;
const EVS: [Ev; 7] = [Data, Empty, Stall, Unknown, Fault, Cancelled, Disconnect];

fn topic(i: usize, len: usize) -> Vec<u8> {
    let mut f = frame(Down1::TOPIC_KEY, 8, i as u32, 4, &[]);
    while f.len() < len {
        f.push(f.len() as u8 ^ i as u8);
    }
    f
}

fn incoming(sim: &Sim, evs: Vec<(Ev, usize, bool)>, stall_all: bool, clear_fails: bool) {
    let (cl, dev) = open(64, 2);
    {
        let mut st = dev.st();
        let e = st.eps.entry(IN).or_default();
        e.stall_all = stall_all;
        e.clear_fails = clear_fails;
    }
    let got: Sh<Vec<Vec<u8>>> = Sh::new(vec![]);
    let (c, g) = (cl.clone(), got.clone());
    let ready = Flag::default();
    let r = ready.clone();
    let ended = Flag::default();
    let en = ended.clone();
    sim.spawn("reader", async move {
        let mut s = c.subscribe_exclusive_raw(Down1::TOPIC_KEY, 1200).await.expect("open");
        drop(c);
        r.set();
        while let Some(f) = s.recv().await {
            g.with(|v| v.push(f.to_bytes()));
        }
        en.set();
    });
    // a call that is never answered: it ends exactly when the client closes
    let hung = Flag::default();
    let (c, h) = (cl.clone(), hung.clone());
    sim.spawn("caller", async move {
        let a = c.send_resp::<Gamma>(&1).await;
        assert!(matches!(a, Err(HostErr::Closed)), "a call without a reply returned {a:?}");
        h.set();
    });
    let d = dev.clone();
    sim.spawn("host out", async move {
        loop {
            d.wanted(OUT).await;
            d.complete(OUT, Ok(None));
        }
    });
    // request id and frame of each transfer the device completed with data
    let sent: Sh<Vec<(usize, Vec<u8>)>> = Sh::new(vec![]);
    let (d, s, e2) = (dev.clone(), sent.clone(), evs.clone());
    sim.spawn("device", async move {
        ready.wait().await;
        for (i, (e, len, gap)) in e2.into_iter().enumerate() {
            if gap {
                vp_rt::sleep(Duration::from_millis(1)).await;
            }
            d.wanted(IN).await;
            vp_rt::log(|| format!("device: {e:?}"));
            match e {
                Data => {
                    let f = topic(i, len);
                    // the reader may see the frame as soon as the request is complete
                    let id = d.st().eps[&IN].q.iter().find(|q| q.done.is_none()).unwrap().id;
                    s.with(|v| v.push((id, f.clone())));
                    d.complete(IN, Ok(Some(f)));
                }
                Empty => {
                    d.complete(IN, Ok(Some(vec![])));
                }
                Stall => {
                    d.complete(IN, Err(TransferError::Stall));
                }
                Unknown => {
                    d.complete(IN, Err(TransferError::Unknown));
                }
                Fault => {
                    d.complete(IN, Err(TransferError::Fault));
                }
                Cancelled => {
                    d.complete(IN, Err(TransferError::Cancelled));
                }
                Disconnect => d.disconnect(),
            }
        }
    });
    sim.run();

    let st = dev.st();
    let e = &st.eps[&IN];
    // what the popped requests mean for the client
    let mut row = 0;
    let mut fatal = None;
    for (id, r) in &e.popped {
        if e.cancelled.contains(id) {
            continue;
        }
        match r {
            Ok(()) => row = 0,
            Err(x @ (TransferError::Stall | TransferError::Unknown)) => {
                row += 1;
                if row > RETRIES || clear_fails {
                    fatal = Some(*x);
                }
            }
            Err(x) => fatal = Some(*x),
        }
    }
    if st.gone {
        fatal = Some(TransferError::Disconnected);
    }
    let at = |id: usize| e.popped.iter().position(|p| p.0 == id);
    let got = got.with(std::mem::take);
    let mut want = vec![];
    sent.with(|v| {
        for (id, f) in v.drain(..) {
            let lost_ok = match at(id) {
                None => fatal.is_some(),
                Some(_) => e.cancelled.contains(&id),
            };
            want.push((f, lost_ok));
        }
    });
    let mut k = 0;
    for (f, lost_ok) in &want {
        if got.get(k) == Some(f) {
            k += 1;
        } else {
            assert!(*lost_ok, "transfer of {} bytes was not delivered (or not whole); delivered {} of {} frames", f.len(), got.len(), want.len());
        }
    }
    assert_eq!(k, got.len(), "frames delivered that no transfer carried (or twice, or out of order)");
    match fatal {
        Some(x) => {
            assert!(cl.is_closed(), "the client stays open after {x:?} ({row} failures in a row)");
            assert!(hung.is_set(), "a call hangs although the device is gone ({x:?})");
            assert!(ended.is_set(), "a subscription hangs although the device is gone ({x:?})");
            assert!(e.dropped, "the endpoint is still held");
        }
        None => {
            assert!(!cl.is_closed(), "the client closed although the device is fine");
            assert!(!hung.is_set());
            assert!(e.q.len() >= 2, "{} transfers are queued while idle", e.q.len());
            assert!(e.q.iter().all(|q| q.done.is_none()), "completed transfers are not picked up");
            assert!(e.q.iter().all(|q| q.room >= LARGEST), "a transfer of {LARGEST} bytes does not fit");
        }
    }
    vp_rt::outcome(&format!("{} {fatal:?}", got.len()));
}

fn any_events(sim: &Sim, n: usize, gaps: bool) {
    let mut v = vec![];
    let stall_all = vp_rt::choose(2, "stall all") == 1;
    let clear_fails = vp_rt::choose(2, "clear fails") == 1;
    for _ in 0..n {
        let e = EVS[vp_rt::choose(EVS.len(), "event")];
        let g = gaps && vp_rt::choose(2, "gap") == 1;
        v.push((e, 20, g));
        if e == Disconnect {
            break;
        }
    }
    incoming(sim, v, stall_all, clear_fails)
}

/// Runs of failures with data in between, around the limit.
fn runs(sim: &Sim, n: usize) {
    let stall_all = vp_rt::choose(2, "stall all") == 1;
    let gap = vp_rt::choose(2, "gap") == 1;
    let kind = vp_rt::choose(3, "kind");
    let sep = [Data, Empty][vp_rt::choose(2, "between")];
    let data = vp_rt::choose(2, "data between") == 1;
    let mut v = match vp_rt::choose(2, "first") {
        0 => vec![(Data, 12, gap)],
        _ => vec![],
    };
    for _ in 0..n {
        let k = [0, 1, 5, 9, 10, 11, 12][vp_rt::choose(7, "failures")];
        for j in 0..k {
            let e = match kind {
                0 => Stall,
                1 => Unknown,
                _ => [Stall, Unknown][j % 2],
            };
            v.push((e, 0, gap));
        }
        v.push((sep, 16, true));
        if data {
            v.push((Data, 14, gap));
        }
    }
    incoming(sim, v, stall_all, false)
}

fn sizes(sim: &Sim) {
    let a = [13, 63, 64, 65, 511, 512, 513, 1023, 1024];
    let v = (0..3).map(|_| (Data, a[vp_rt::choose(9, "size")], vp_rt::choose(2, "gap") == 1)).collect();
    incoming(sim, v, false, false)
}

/// Many transfers one after another, with failures now and then.
fn long(sim: &Sim) {
    let every = [0, 7, 64, 100][vp_rt::choose(4, "failures")];
    let gap = vp_rt::choose(2, "gap") == 1;
    let v = (1..=300).map(|i| (if every > 0 && i % every == 0 { Stall } else { Data }, 13 + i % 50, gap)).collect();
    incoming(sim, v, vp_rt::choose(2, "stall all") == 1, false)
}

// ---------------------------------------------------------------------------
// outgoing frames
// ---------------------------------------------------------------------------

fn outgoing(sim: &Sim, mps: usize, bodies: Vec<usize>, publishers: usize, late: bool, fail: Option<usize>) {
    let (cl, dev) = open(mps, 2);
    let per: Vec<Vec<usize>> = (0..publishers).map(|p| bodies.iter().copied().skip(p).step_by(publishers).collect()).collect();
    let failed: Sh<usize> = Sh::new(0);
    for (p, bs) in per.iter().enumerate() {
        let (c, bs, fl) = (cl.clone(), bs.clone(), failed.clone());
        sim.spawn(format!("publisher{p}"), async move {
            for (k, n) in bs.iter().enumerate() {
                if c.publish::<Up2>(VarSeq::Seq2((p * 100 + k) as u16), &Blob(contents(p, *n))).await.is_err() {
                    fl.with(|f| *f += 1);
                    return;
                }
            }
        });
    }
    let d = dev.clone();
    sim.spawn("host", async move {
        for i in 0.. {
            d.wanted(OUT).await;
            if late {
                vp_rt::sleep(Duration::from_millis(1)).await;
            }
            if fail == Some(i) {
                d.complete(OUT, Err(TransferError::Stall));
                return;
            }
            d.complete(OUT, Ok(None));
        }
    });
    sim.run();
    let st = dev.st();
    let e = &st.eps[&OUT];
    let mut next = vec![0; publishers];
    let mut frames = 0;
    let mut i = 0;
    while i < e.subs.len() {
        let (b, _, popped) = &e.subs[i];
        let (h, body) = decode(b).unwrap_or_else(|| panic!("submission {i} ({} bytes) is not a frame", b.len()));
        assert_eq!(*popped, i, "frame submitted while an earlier transfer is not complete");
        assert_eq!(h.key, key_n(Up2::TOPIC_KEY, 8));
        let q = h.seq_u32() as usize;
        let (p, k) = (q / 100, q % 100);
        assert_eq!(k, next[p], "publisher {p}: out of order");
        next[p] += 1;
        frames += 1;
        let body: Blob = postcard::from_bytes(body).expect("payload");
        assert!(body.0 == contents(p, per[p][k]), "publisher {p}: frame {k} is damaged");
        i += 1;
        let broken = fail.is_some_and(|f| i >= f);
        let empty = e.subs.get(i).is_some_and(|s| s.0.is_empty());
        if b.len() % mps == 0 {
            if !broken {
                assert!(empty, "{} bytes in packets of {mps}: the end of the frame is not marked", b.len());
            }
            if empty {
                i += 1;
            }
        } else {
            assert!(!empty, "{} bytes in packets of {mps}: an extra empty transfer", b.len());
        }
    }
    match fail {
        Some(f) if e.popped.iter().any(|p| p.1.is_err()) => {
            assert!(cl.is_closed(), "the client stays open although transfer {f} failed");
            assert!(e.popped.len() <= f + 2, "transfers follow a failed one");
            let last = e.subs[f.min(e.subs.len() - 1)..].iter().skip(1).filter(|s| !s.0.is_empty()).count();
            assert_eq!(last, 0, "frames are sent after a failed one");
            assert!(e.dropped, "the endpoint is still held");
        }
        _ => {
            assert!(!cl.is_closed(), "the client closed although the device is fine");
            assert_eq!(frames, bodies.len(), "frames sent (left), published (right)");
            assert_eq!(e.popped.len(), e.subs.len(), "completions not waited for");
        }
    }
    vp_rt::outcome(&format!("{frames} {}", e.subs.len()));
}

fn lengths(sim: &Sim) {
    let mps = [8, 16, 32, 64, 512][vp_rt::choose(5, "packet size")];
    // header 11 bytes, one or two bytes of length
    let span = if mps == 512 { 12 } else { mps + 3 };
    let base = if mps == 512 { 492 } else { vp_rt::choose(3, "packets") * mps };
    let n = base + vp_rt::choose(span, "length");
    let m = vp_rt::choose(2, "second");
    outgoing(sim, mps, vec![n, if m == 0 { 4 } else { 52 }], 1, false, None)
}

/// No two stretches of a payload are the same.
fn contents(p: usize, n: usize) -> Vec<u8> {
    (0..n).map(|i| (p + 1 + i * 7 + i / 251) as u8).collect()
}

/// Frames of many packets.
fn long_frames(sim: &Sim) {
    let mps = [64, 512][vp_rt::choose(2, "packet size")];
    let packets = [2, 4, 8, 15, 16, 17, 32, 64, 128, 255, 256, 257, 512, 1024, 1025][vp_rt::choose(15, "packets")];
    // 11 and 2 or 3 bytes around the payload
    let n = packets * 64 - 15 + vp_rt::choose(5, "length");
    outgoing(sim, mps, vec![n, 3, n, 51], 1, false, None)
}

/// Alternate settings with endpoints of different packet sizes.
fn alternates(sim: &Sim) {
    let sizes = [[64, 32], [32, 64], [64, 512], [512, 64], [16, 64]][vp_rt::choose(5, "packet sizes")];
    let mut s = spec(sizes[0]);
    let mut second = s.interfaces[1].1[0].clone();
    second.iter_mut().find(|e| e.addr == OUT).unwrap().mps = sizes[1];
    s.interfaces[1].1.push(second);
    let n = vp_rt::choose(600, "length");
    let dev = plug(vec![s]).pop().unwrap();
    let cl = make("1", 2).expect("device opens");
    let c = cl.clone();
    sim.spawn("publisher", async move {
        for k in 0..2 {
            c.publish::<Up2>(VarSeq::Seq2(k), &Blob(vec![1; n])).await.expect("open");
        }
    });
    let d = dev.clone();
    sim.spawn("host", async move {
        loop {
            d.wanted(OUT).await;
            d.complete(OUT, Ok(None));
        }
    });
    sim.run();
    // the setting in use is the first
    let mps = sizes[0];
    let st = dev.st();
    let mut cur = 0;
    let mut frames = vec![];
    for (b, _, _) in &st.eps[&OUT].subs {
        cur += b.len();
        if b.len() % mps != 0 || b.is_empty() {
            frames.push(std::mem::take(&mut cur));
        }
    }
    // a further empty transfer after a frame that has ended is an empty frame, which is ignored
    frames.retain(|f| *f > 0);
    let len = 11 + n + if n < 128 { 1 } else { 2 };
    assert!(cur == 0 && frames == [len, len], "two frames of {len} bytes in packets of {mps} arrive as frames of {frames:?} bytes, {cur} more");
}

fn out_failures(sim: &Sim, publishers: usize) {
    // 11 + 1 + 52 = 64
    let f = vp_rt::choose(6, "fails");
    let late = vp_rt::choose(2, "late") == 1;
    outgoing(sim, 64, vec![1, 52, 3, 52], publishers, late, Some(f))
}

// ---------------------------------------------------------------------------
// opening
// ---------------------------------------------------------------------------

fn opening(_: &Sim) {
    use EndpointType::*;
    let mut s = spec(64);
    let what = vp_rt::choose(9, "device");
    let mut ok = false;
    match what {
        0 => ok = true,
        1 => s.serial = Some("3".into()),
        2 => s.open_fails = true,
        3 => s.claim_fails = true,
        4 => s.interfaces[1].0 = 3,
        5 => s.interfaces[1].1[0].retain(|e| e.addr != OUT),
        6 => s.interfaces[1].1[0].retain(|e| e.addr != IN),
        7 => s.interfaces[1].1[0].iter_mut().for_each(|e| e.ty = Interrupt),
        _ => {
            s.interfaces.remove(0);
            ok = true
        }
    }
    let iface = if what == 8 { 0 } else { 1 };
    let other = DevSpec { serial: Some("2".into()), ..spec(32) };
    let d = plug(if vp_rt::choose(2, "order") == 0 { vec![other, s] } else { vec![s, other] });
    let r = if vp_rt::choose(2, "constructor") == 0 {
        make("1", 2)
    } else {
        Client::try_new_raw_nusb_with_interface(|i| i.serial_number() == Some("1"), |i| i.class() == 0xff, ERROR_PATH, 2, sk(2))
    };
    assert_eq!(r.is_ok(), ok, "opening a device that {}", if ok { "works failed" } else { "cannot be used succeeded" });
    let d: Vec<_> = d.iter().filter(|d| d.spec.serial.as_deref() == Some("1")).collect();
    if ok {
        let st = d[0].st();
        assert_eq!(st.claimed, Some(iface));
        assert!(st.eps.get(&IN).is_some_and(|e| e.open) && st.eps.get(&OUT).is_some_and(|e| e.open), "the bulk endpoints are not used");
        assert_eq!(st.eps.len(), 2, "other endpoints are used too");
    }
}

/// Each way to set a client up.
fn settings(sim: &Sim) {
    let s = crate::settings::choose();
    let other = DevSpec { serial: Some("2".into()), ..spec(32) };
    let dev = plug(vec![other, spec(64)]).pop().unwrap();
    let find = |i: &nusb::DeviceInfo| i.serial_number() == Some("1");
    let cl = match vp_rt::choose(4, "constructor") {
        0 => Client::try_new_raw_nusb(find, s.path, 2, sk(s.seq)).expect("device opens"),
        1 => Client::new_raw_nusb(find, s.path, 2, sk(s.seq)),
        2 => Client::try_new_raw_nusb_with_interface(find, |i| i.class() == 0xff, s.path, 2, sk(s.seq)).expect("device opens"),
        _ => {
            let i = nusb::list_devices().unwrap().find(find).unwrap();
            Client::try_from_nusb_and_interface(&i, 1, s.path, 2, sk(s.seq)).expect("device opens")
        }
    };
    let ok = Flag::default();
    sim.spawn("caller", crate::settings::caller(cl, ok.clone()));
    sim.spawn("peer", async move {
        let next = async || {
            dev.wanted(OUT).await;
            let f = dev.st().eps[&OUT].subs.last().unwrap().0.clone();
            dev.complete(OUT, Ok(None));
            f
        };
        let feed = async |f| {
            dev.wanted(IN).await;
            dev.complete(IN, Ok(Some(f)));
        };
        crate::settings::peer(s, next, feed).await
    });
    sim.run_until(Duration::from_secs(5));
    assert!(ok.is_set(), "a call hangs");
}

pub fn run(a: Args) {
    let t = a.thorough;
    let mut r = Report::new(
        a,
        "model_checking",
        "each sequence of transfer completions with each stall behaviour, each frame length and packet size, and each schedule is one evaluation; judged by a reference automaton over the completions the transport saw",
    );
    r.assume("nusb is replaced by a device model: requests complete in order, cancellation completes what is not complete, a halt is cleared only with nothing queued; the operating system's USB stack is not modelled");
    r.explore(Config::new("settings", 0, 0).delays(), settings);
    r.explore(Config::new("opening", 0, 0).delays(), opening);
    for n in 1..=if t { 5 } else { 4 } {
        r.explore(Config::new(format!("{n} incoming completions"), 0, 0).delays(), |s| any_events(s, n, true));
    }
    for n in 1..=if t { 4 } else { 3 } {
        r.explore(Config::new(format!("{n} incoming completions, schedules"), if t { 2 } else { 1 }, 0).delays(), |s| any_events(s, n, false));
    }
    r.explore(Config::new("runs of failures", 0, 0).delays(), |s| runs(s, if t { 3 } else { 2 }));
    r.explore(Config::new("sizes of incoming transfers", 0, 0).delays(), sizes);
    r.explore(Config::new("lengths of outgoing frames", 0, 0).delays(), lengths);
    r.explore(Config::new("long outgoing frames", 0, 0).delays(), long_frames);
    r.explore(Config::new("alternate settings", 0, 0).delays(), alternates);
    r.explore(Config::new("many incoming transfers", 0, 0).delays(), long);
    for p in 1..=2 {
        r.explore(Config::new(format!("outgoing failures, {p} publishers"), if t { 3 } else { 2 }, 0).delays(), |s| out_failures(s, p));
    }
    r.finish()
}
