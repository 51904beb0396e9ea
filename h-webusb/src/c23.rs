//! C23: the WebUSB client over a scripted device in a model of a browser.

use crate::common::*;
use crate::icd::*;
use browser::mock::{plug, Dev, Outcome, Spec, REQUESTS};
use browser::web::UsbTransferStatus as Status;
use postcard_rpc::header::VarSeq;
use postcard_rpc::host_client::HostErr;
use postcard_rpc::standard_icd::ERROR_PATH;
use postcard_rpc::Topic;
use std::sync::Arc;
use std::time::Duration;
use vp_rt::report::{Args, Report};
use vp_rt::{Config, Sim};

const VENDOR: u16 = 0x16c0;
const OUT: u8 = 2;
const IN: u8 = 1;
const IFACE: u8 = 3;
const MPS: usize = 64;
const LARGEST: usize = 1024;

async fn make(depth: usize) -> Result<Client, String> {
    Client::try_new_webusb(VENDOR, IFACE, LARGEST as u32, IN, OUT, ERROR_PATH, depth, sk(2)).await.map_err(|e| e.to_string())
}

fn one(spec: Spec) -> Arc<Dev> {
    plug(vec![Spec { vendor: VENDOR, paired: true, ..spec }]).pop().unwrap()
}

/// The client, as soon as it is open.
#[derive(Clone)]
struct Opened(Sh<Option<Client>>, Flag);
impl Opened {
    fn spawn(sim: &Sim, depth: usize) -> Opened {
        let o = Opened(Sh::new(None), Flag::default());
        let o2 = o.clone();
        sim.spawn("open", async move {
            let c = make(depth).await.expect("device opens");
            o2.0.with(|s| *s = Some(c));
            o2.1.set();
        });
        o
    }
    async fn get(&self) -> Client {
        self.1.wait().await;
        self.0.get().unwrap()
    }
}

// ---------------------------------------------------------------------------
// incoming transfers
// ---------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Ev {
    Data(usize),
    Empty,
    NoData,
    Stall,
    Babble,
    /// a stall or babble without data
    Quiet(bool),
    Rejected,
    Disconnect,
}
use Ev::*;

fn topic(i: usize, len: usize) -> Vec<u8> {
    let mut f = frame(Down1::TOPIC_KEY, 8, i as u32, 4, &[]);
    while f.len() < len {
        f.push(f.len() as u8 ^ i as u8);
    }
    f
}

fn incoming(sim: &Sim, evs: Vec<(Ev, bool)>) {
    let dev = one(Spec::default());
    let open = Opened::spawn(sim, 2);
    let got: Sh<Vec<Vec<u8>>> = Sh::new(vec![]);
    let (ready, ended, hung) = (Flag::default(), Flag::default(), Flag::default());
    let (o, g, r, en) = (open.clone(), got.clone(), ready.clone(), ended.clone());
    sim.spawn("reader", async move {
        let mut s = o.get().await.subscribe_exclusive_raw(Down1::TOPIC_KEY, 1200).await.expect("open");
        r.set();
        while let Some(f) = s.recv().await {
            g.with(|v| v.push(f.to_bytes()));
        }
        en.set();
    });
    let (o, h) = (open.clone(), hung.clone());
    sim.spawn("caller", async move {
        let a = o.get().await.send_resp::<Gamma>(&1).await;
        assert!(matches!(a, Err(HostErr::Closed)), "a call without a reply returned {a:?}");
        h.set();
    });
    let d = dev.clone();
    sim.spawn("out", async move {
        loop {
            d.until(|d| d.outs_open() > 0).await;
            d.settle_out(Outcome::Status(Status::Ok));
        }
    });
    let fatal: Sh<Option<Ev>> = Sh::new(None);
    let want: Sh<Vec<Vec<u8>>> = Sh::new(vec![]);
    let (d, fa, w) = (dev.clone(), fatal.clone(), want.clone());
    sim.spawn("device", async move {
        ready.wait().await;
        for (i, (e, gap)) in evs.into_iter().enumerate() {
            if gap {
                vp_rt::sleep(Duration::from_millis(1)).await;
            }
            d.until(|d| d.ins_open() > 0).await;
            vp_rt::log(|| format!("device: {e:?}"));
            match e {
                Data(n) => {
                    let f = topic(i, n);
                    w.with(|v| v.push(f.clone()));
                    d.settle_in(Outcome::Status(Status::Ok), Some(f));
                    continue;
                }
                Empty => {
                    d.settle_in(Outcome::Status(Status::Ok), Some(vec![]));
                    continue;
                }
                NoData => {
                    d.settle_in(Outcome::Status(Status::Ok), None);
                    continue;
                }
                _ => {}
            }
            fa.with(|f| *f = Some(e));
            // whatever data comes with a failure must not be taken for a frame
            let junk = match e {
                Quiet(_) => None,
                _ => Some(topic(50 + i, 20)),
            };
            match e {
                Quiet(s) => d.settle_in(Outcome::Status(if s { Status::Stall } else { Status::Babble }), junk),
                Stall => d.settle_in(Outcome::Status(Status::Stall), junk),
                Babble => d.settle_in(Outcome::Status(Status::Babble), junk),
                Rejected => d.settle_in(Outcome::Rejected, None),
                _ => {
                    d.disconnect();
                    true
                }
            };
            return;
        }
    });
    sim.run();
    let cl = open.0.get().expect("open");
    let (got, want) = (got.get(), want.get());
    let lens = |v: &[Vec<u8>]| v.iter().map(|f| f.len()).collect::<Vec<_>>();
    assert!(got == want, "transfers of {:?} bytes arrive as frames of {:?} bytes{}", lens(&want), lens(&got), if lens(&got) == lens(&want) { " (contents differ)" } else { "" });
    let st = dev.st();
    assert!(st.asked.iter().all(|a| *a == (IN, LARGEST as u32)), "incoming transfers {:?}", st.asked);
    drop(st);
    match fatal.get() {
        Some(e) => {
            assert!(cl.is_closed(), "the client stays open after {e:?}");
            assert!(hung.is_set(), "a call hangs after {e:?}");
            assert!(ended.is_set(), "a subscription hangs after {e:?}");
            assert_eq!(dev.ins_open(), 0, "reads on after {e:?}");
        }
        None => {
            assert!(!cl.is_closed(), "the client closed although the device is fine");
            assert!(!hung.is_set() && !ended.is_set());
            assert!(dev.ins_open() > 0, "no transfer is asked for while idle");
        }
    }
    vp_rt::outcome(&format!("{} {:?}", got.len(), fatal.get()));
}

fn any_events(sim: &Sim, n: usize, gaps: bool) {
    const EVS: [Ev; 9] = [Data(20), Empty, NoData, Stall, Babble, Quiet(true), Quiet(false), Rejected, Disconnect];
    let mut v = vec![];
    for _ in 0..n {
        let e = EVS[vp_rt::choose(EVS.len(), "event")];
        let g = gaps && vp_rt::choose(2, "gap") == 1;
        v.push((e, g));
        if !matches!(e, Data(_) | Empty | NoData) {
            break;
        }
    }
    incoming(sim, v)
}

fn sizes(sim: &Sim) {
    let a = [13, 63, 64, 65, 128, 511, 512, 513, 1023, 1024];
    let v = (0..3).map(|_| (Data(a[vp_rt::choose(a.len(), "size")]), vp_rt::choose(2, "gap") == 1)).collect();
    incoming(sim, v)
}

// ---------------------------------------------------------------------------
// outgoing frames
// ---------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Fail {
    Stall,
    Babble,
    Rejected,
    Disconnect,
    Throws,
}
const FAILS: [Fail; 5] = [Fail::Stall, Fail::Babble, Fail::Rejected, Fail::Disconnect, Fail::Throws];

/// What a device makes of the transfers: frames, and what is left without an end.
fn reassemble(out: &[(u8, Vec<u8>, Option<Outcome>)]) -> (Vec<Vec<u8>>, Vec<u8>) {
    let mut frames = vec![];
    let mut cur = vec![];
    for (ep, b, _) in out {
        assert_eq!(*ep, OUT, "endpoint");
        cur.extend_from_slice(b);
        if b.is_empty() || b.len() % MPS != 0 {
            frames.push(std::mem::take(&mut cur));
        }
    }
    (frames, cur)
}

fn outgoing(sim: &Sim, bodies: Vec<usize>, publishers: usize, late: bool, fail: Option<(usize, Fail)>) {
    let dev = one(Spec { out_throws: fail.is_some_and(|f| f.1 == Fail::Throws), ..Default::default() });
    let open = Opened::spawn(sim, 2);
    let per: Vec<Vec<usize>> = (0..publishers).map(|p| bodies.iter().copied().skip(p).step_by(publishers).collect()).collect();
    for (p, bs) in per.iter().enumerate() {
        let (o, bs) = (open.clone(), bs.clone());
        sim.spawn(format!("publisher{p}"), async move {
            let c = o.get().await;
            for (k, n) in bs.iter().enumerate() {
                if c.publish::<Up2>(VarSeq::Seq2((p * 100 + k) as u16), &Blob(contents(p, *n))).await.is_err() {
                    return;
                }
            }
        });
    }
    let d = dev.clone();
    let failed = Flag::default();
    let fl = failed.clone();
    sim.spawn("host", async move {
        for i in 0.. {
            d.until(|d| d.outs_open() > 0).await;
            if late {
                vp_rt::sleep(Duration::from_millis(1)).await;
            }
            match fail {
                Some((n, f)) if n == i => {
                    fl.set();
                    match f {
                        Fail::Stall => d.settle_out(Outcome::Status(Status::Stall)),
                        Fail::Babble => d.settle_out(Outcome::Status(Status::Babble)),
                        Fail::Rejected => d.settle_out(Outcome::Rejected),
                        _ => {
                            d.disconnect();
                            None
                        }
                    };
                }
                _ => {
                    d.settle_out(Outcome::Status(Status::Ok));
                }
            }
        }
    });
    sim.run();
    let cl = open.0.get().expect("open");
    let st = dev.st();
    let mut seen = vec![];
    for o in &st.out {
        seen.push(o.clone());
        if !matches!(o.2, Some(Outcome::Status(Status::Ok))) {
            break;
        }
    }
    let broken = failed.is_set() || dev.spec.out_throws;
    assert!(seen.len() == st.out.len(), "transfers follow a failed one");
    let (frames, rest) = reassemble(&seen);
    assert!(broken || rest.is_empty(), "the end of a frame of {} bytes is not marked", rest.len());
    let mut next = vec![0; publishers];
    let mut n = 0;
    let part = (!rest.is_empty()).then_some(&rest);
    for f in frames.iter().chain(part) {
        let (h, body) = decode(f).unwrap_or_else(|| panic!("the device receives {} bytes that are not a frame", f.len()));
        assert_eq!(h.key, key_n(Up2::TOPIC_KEY, 8));
        let q = h.seq_u32() as usize;
        let (p, k) = (q / 100, q % 100);
        assert_eq!(k, next[p], "publisher {p}: out of order");
        next[p] += 1;
        n += 1;
        let body: Blob = postcard::from_bytes(body).expect("payload");
        assert!(body.0 == contents(p, per[p][k]), "publisher {p}: frame {k} is damaged");
    }
    if broken {
        assert!(cl.is_closed(), "the client stays open although transfer {fail:?} failed");
    } else {
        assert!(!cl.is_closed(), "the client closed although the device is fine");
        assert_eq!(n, bodies.len(), "frames received by the device (left), published (right)");
    }
    vp_rt::outcome(&format!("{n} {} {broken}", st.out.len()));
}

fn lengths(sim: &Sim, top: usize) {
    let n = vp_rt::choose(top, "length");
    let m = [4, 52][vp_rt::choose(2, "second")];
    outgoing(sim, vec![n, m, 3], 1, false, None)
}

/// No two stretches of a payload are the same.
fn contents(p: usize, n: usize) -> Vec<u8> {
    (0..n).map(|i| (p + 1 + i * 7 + i / 251) as u8).collect()
}

/// Around the transfer sizes of the incoming side and beyond.
fn long_frames(sim: &Sim) {
    let packets = [8, 15, 16, 17, 24, 32, 33, 64, 128, 255, 256, 257, 512, 1024, 1025][vp_rt::choose(15, "packets")];
    // 11 and 2 or 3 bytes around the payload
    let n = packets * MPS - 15 + vp_rt::choose(5, "length");
    outgoing(sim, vec![n, 3, n, 52], 1, false, None)
}

/// Many transfers one after another.
fn many(sim: &Sim) {
    let gap = vp_rt::choose(2, "gap") == 1;
    let odd = [Data(13), Empty, NoData][vp_rt::choose(3, "now and then")];
    incoming(sim, (1..=300).map(|i| (if i % 10 == 0 { odd } else { Data(13 + i % 60) }, gap)).collect())
}

fn out_failures(sim: &Sim, publishers: usize) {
    // 11 + 1 + 52 = 64
    let at = vp_rt::choose(6, "fails");
    let f = FAILS[vp_rt::choose(FAILS.len(), "how")];
    let late = vp_rt::choose(2, "late") == 1;
    outgoing(sim, vec![1, 52, 3, 52], publishers, late, Some((at, f)))
}

// ---------------------------------------------------------------------------
// calls in both directions
// ---------------------------------------------------------------------------

/// Requests answered by the device until it fails.
fn calls(sim: &Sim, callers: usize) {
    let dev = one(Spec::default());
    let open = Opened::spawn(sim, 2);
    let good = vp_rt::choose(3, "answered");
    let f = vp_rt::choose(6, "failure");
    let done: Sh<Vec<Result<u32, bool>>> = Sh::new(vec![]);
    for i in 0..callers {
        let (o, dn) = (open.clone(), done.clone());
        sim.spawn(format!("caller{i}"), async move {
            let r = o.get().await.send_resp::<Gamma>(&(i as u8)).await;
            dn.with(|v| {
                v.push(match r {
                    Ok(x) => Ok(x.wrapping_sub(1000 + i as u32)),
                    Err(e) => Err(matches!(e, HostErr::Closed)),
                })
            });
        });
    }
    let d = dev.clone();
    sim.spawn("device", async move {
        for k in 0.. {
            d.until(|d| d.outs_open() > 0).await;
            if k == good && f < 3 {
                match f {
                    0 => d.settle_out(Outcome::Status(Status::Stall)),
                    1 => d.settle_out(Outcome::Rejected),
                    _ => {
                        d.disconnect();
                        None
                    }
                };
                continue;
            }
            let req = d.st().out.iter().find(|o| o.2.is_none()).unwrap().1.clone();
            d.settle_out(Outcome::Status(Status::Ok));
            if req.is_empty() {
                continue;
            }
            d.until(|d| d.ins_open() > 0).await;
            if k == good && f < 5 {
                d.settle_in(if f == 3 { Outcome::Rejected } else { Outcome::Status(Status::Stall) }, None);
                continue;
            }
            let (h, b) = decode(&req).expect("request");
            let v = 1000 + b[0] as u32;
            let rep = frame(<Gamma as postcard_rpc::Endpoint>::RESP_KEY, 8, h.seq_u32(), h.seq.len(), &postcard::to_stdvec(&v).unwrap());
            d.settle_in(Outcome::Status(Status::Ok), Some(rep));
        }
    });
    sim.run();
    let r = done.get();
    let cl = open.0.get().unwrap();
    let fails = f < 5 && good < callers;
    assert_eq!(r.len(), callers, "calls hang");
    assert_eq!(cl.is_closed(), fails, "closed (left), device failed (right)");
    assert!(r.iter().all(|x| matches!(x, Ok(0) | Err(true))), "call results {r:?}");
    if !fails {
        assert!(r.iter().all(|x| x.is_ok()), "answered calls fail: {r:?}");
    }
    vp_rt::outcome(&format!("{r:?}"));
}

// ---------------------------------------------------------------------------
// opening
// ---------------------------------------------------------------------------

fn opening(sim: &Sim) {
    // other devices paired before, this one paired or picked
    let others = vp_rt::choose(3, "others");
    let paired = vp_rt::choose(2, "paired") == 1;
    let picked = vp_rt::choose(2, "picked") == 1;
    let bad = vp_rt::choose(3, "refuses");
    let first = vp_rt::choose(2, "order") == 0;
    let it = Spec { vendor: VENDOR, paired, picked, open_fails: bad == 1, claim_fails: bad == 2, ..Default::default() };
    let mut v: Vec<Spec> = (0..others).map(|i| Spec { vendor: VENDOR + 1 + i as u16, paired: true, ..Default::default() }).collect();
    let at = if first { 0 } else { v.len() };
    v.insert(at, it);
    let devs = plug(v);
    let res: Sh<Option<Result<(), String>>> = Sh::new(None);
    let r = res.clone();
    let keep: Sh<Vec<Client>> = Sh::new(vec![]);
    let kp = keep.clone();
    sim.spawn("open", async move {
        let c = make(1).await;
        r.with(|r| *r = Some(c.as_ref().map(|_| ()).map_err(|e| e.clone())));
        kp.with(|k| k.extend(c));
    });
    sim.run();
    let r = res.get().expect("opening hangs");
    let want = (paired || picked) && bad == 0;
    assert_eq!(r.is_ok(), want, "opening: {r:?}");
    let asked = REQUESTS.with(|r| r.borrow().clone());
    assert_eq!(asked.len(), if paired { 0 } else { 1 }, "times the user was asked");
    assert!(asked.iter().all(|a| a.contains("vendorId") && a.contains(&VENDOR.to_string())), "filter {asked:?}");
    for (i, d) in devs.iter().enumerate() {
        let st = d.st();
        if i != at {
            assert!(!st.opened, "opened a device of another vendor");
        } else if want {
            assert_eq!(st.claimed, vec![IFACE]);
            assert_eq!(st.asked, vec![(IN, LARGEST as u32)]);
        }
    }
}

/// Each way to set a client up.
fn settings(sim: &Sim) {
    let s = crate::settings::choose();
    let dev = one(Spec::default());
    let ok = Flag::default();
    let o = ok.clone();
    sim.spawn("caller", async move {
        let c = Client::try_new_webusb(VENDOR, IFACE, LARGEST as u32, IN, OUT, s.path, 2, sk(s.seq)).await;
        crate::settings::caller(c.map_err(|e| e.to_string()).expect("device opens"), o).await
    });
    sim.spawn("peer", async move {
        let next = async || {
            dev.until(|d| d.outs_open() > 0).await;
            let f = dev.st().out.last().unwrap().1.clone();
            dev.settle_out(Outcome::Status(Status::Ok));
            f
        };
        let feed = async |f| {
            dev.until(|d| d.ins_open() > 0).await;
            dev.settle_in(Outcome::Status(Status::Ok), Some(f));
        };
        crate::settings::peer(s, next, feed).await
    });
    sim.run_until(Duration::from_secs(5));
    assert!(ok.is_set(), "a call hangs");
}

pub fn run(a: Args) {
    let t = a.thorough;
    let mut r = Report::new(
        a,
        "model_checking",
        "each sequence of transfer outcomes, each frame length and each schedule is one evaluation; the device's view is reassembled from the transfers",
    );
    r.assume("wasm-bindgen, js-sys, web-sys and gloo are replaced by a model of the browser: promises settled by a scripted device, transfers of an endpoint in order, stall and babble as fulfilled results; the packet size is 64 bytes, that of postcard-rpc's USB devices");
    r.explore(Config::new("settings", 0, 0).delays(), settings);
    r.explore(Config::new("opening", 0, 0).delays(), opening);
    for n in 1..=if t { 6 } else { 5 } {
        r.explore(Config::new(format!("{n} incoming transfers"), 0, 0).delays(), |s| any_events(s, n, true));
    }
    for n in 1..=if t { 4 } else { 3 } {
        r.explore(Config::new(format!("{n} incoming transfers, schedules"), if t { 3 } else { 2 }, 0).delays(), |s| any_events(s, n, false));
    }
    r.explore(Config::new("sizes of incoming transfers", 0, 0).delays(), sizes);
    r.explore(Config::new("lengths of outgoing frames", 0, 0).delays(), |s| lengths(s, if t { 2100 } else { 600 }));
    r.explore(Config::new("long outgoing frames", 0, 0).delays(), long_frames);
    r.explore(Config::new("many incoming transfers", 0, 0).delays(), many);
    for p in 1..=2 {
        r.explore(Config::new(format!("outgoing failures, {p} publishers"), if t { 3 } else { 2 }, 0).delays(), |s| out_failures(s, p));
    }
    for n in 1..=3 {
        r.explore(Config::new(format!("{n} calls until the device fails"), if t { 3 } else { 2 }, 0).delays(), |s| calls(s, n));
    }
    r.finish()
}
