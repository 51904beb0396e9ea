//! C14: sending on the embassy USB transports.

use crate::common::*;
use crate::usb::{self, MPS};
use postcard_rpc::header::{VarHeader, VarKey, VarKeyKind, VarSeq};
use postcard_rpc::server::{Sender, WireTx, WireTxErrorKind};
use postcard_rpc::standard_icd::LoggingTopic;
use postcard_rpc::{Key, Topic};
use std::future::Future;
use std::pin::pin;
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use vp_rt::report::{Args, Report};
use vp_rt::{Config, Sim};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Res {
    Ok,
    Timeout,
    Closed,
    Other,
    Abandoned,
}

fn res(r: Result<(), WireTxErrorKind>) -> Res {
    match r {
        Ok(()) => Res::Ok,
        Err(WireTxErrorKind::Timeout) => Res::Timeout,
        Err(WireTxErrorKind::ConnectionClosed) => Res::Closed,
        Err(_) => Res::Other,
    }
}

/// One send: who, its frame, its result and how long it took.
#[derive(Clone, Debug)]
struct Sent {
    who: usize,
    frame: Vec<u8>,
    log: bool,
    /// it puts nothing on the wire and returns this
    none: Option<Res>,
    res: Res,
    took: Duration,
    /// faults and packets on the wire when it began and ended
    from: usize,
    to: usize,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum How {
    Send,
    Raw,
    LogStr,
    LogFmt,
    /// an empty raw frame: nothing to send
    Empty,
    /// a message that fails to serialize after some bytes
    Broken,
}

struct Unser(usize);
impl serde::Serialize for Unser {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::{Error, SerializeTuple};
        let mut t = s.serialize_tuple(self.0 + 1)?;
        for i in 0..self.0 {
            t.serialize_element(&(i as u8))?;
        }
        Err(S::Error::custom("no"))
    }
}

fn show(v: &[Sent]) -> String {
    let s: Vec<_> = v.iter().map(|s| format!("{}:{} bytes {:?}", s.who, s.frame.len(), s.res)).collect();
    s.join(", ")
}

/// Is `t` the frame of that send? (The sequence number of a log message, and how its length is
/// written, are up to the transport.)
fn matches(s: &Sent, t: &[u8]) -> bool {
    if !s.log {
        return s.frame == t;
    }
    let text: String = postcard::from_bytes(&s.frame[4..]).unwrap();
    t.len() >= 4 && t[..2] == s.frame[..2] && matches!(postcard::take_from_bytes::<String>(&t[4..]), Ok((x, rest)) if x == text && rest.is_empty())
}
fn prefixes(s: &Sent, t: &[u8]) -> bool {
    if !s.log {
        return s.frame.starts_with(t);
    }
    let text: String = postcard::from_bytes(&s.frame[4..]).unwrap();
    t.len() >= MPS && t[..2] == s.frame[..2] && (5..8).any(|k| text.as_bytes().starts_with(&t[k..]))
}

/// Judge what the host saw.
fn judge(all: &[Sent]) -> String {
    for s in all {
        if let Some(w) = s.none {
            assert!(s.res == w || s.res == Res::Abandoned, "a send with nothing to put on the wire returned {:?}: {}", s.res, show(all));
        }
    }
    let sent: Vec<Sent> = all.iter().filter(|s| s.none.is_none()).cloned().collect();
    let sent = &sent[..];
    let packets = usb::st(|s| std::mem::take(&mut s.packets));
    let mut transfers = vec![];
    let mut cur: Vec<u8> = vec![];
    for p in &packets {
        assert!(p.len() <= MPS, "oversized packet");
        cur.extend_from_slice(p);
        if p.len() < MPS {
            transfers.push(std::mem::take(&mut cur));
        }
    }
    let lens: Vec<_> = packets.iter().map(|p| p.len()).collect();
    let ctx = || format!("sends {}; packets {lens:?}", show(sent));
    let mut whole = vec![0; sent.len()];
    let mut part = vec![0; sent.len()];
    let mut at = vec![usize::MAX; sent.len()];
    let mut empty = 0;
    let mut log_seq: Vec<u16> = vec![];
    for (k, t) in transfers.iter().enumerate() {
        if t.is_empty() {
            empty += 1;
            continue;
        }
        if let Some(i) = (0..sent.len()).find(|i| matches(&sent[*i], t)) {
            whole[i] += 1;
            at[i] = k;
            if sent[i].log {
                log_seq.push(u16::from_le_bytes([t[2], t[3]]));
            }
            continue;
        }
        let Some(i) = (0..sent.len()).find(|i| sent[*i].res != Res::Ok && t.len() % MPS == 0 && prefixes(&sent[*i], t)) else {
            panic!("the host sees a transfer of {} bytes that is no frame: {}", t.len(), ctx())
        };
        part[i] += 1;
    }
    if !cur.is_empty() {
        let Some(i) = (0..sent.len()).find(|i| sent[*i].res != Res::Ok && prefixes(&sent[*i], &cur)) else {
            panic!("a frame is not terminated: {}", ctx())
        };
        part[i] += 1;
    }
    let failed = sent.iter().filter(|s| s.res != Res::Ok).count();
    assert!(empty <= failed, "{empty} empty transfers: {}", ctx());
    for (i, s) in sent.iter().enumerate() {
        if s.res == Res::Ok {
            assert!(whole[i] == 1 && part[i] == 0, "a frame of {} bytes that was sent arrived {} times: {}", s.frame.len(), whole[i], ctx());
        } else {
            assert!(whole[i] + part[i] <= 1, "parts of a failed send arrive twice: {}", ctx());
        }
    }
    for i in 0..sent.len() {
        for j in i + 1..sent.len() {
            if sent[i].who == sent[j].who && whole[i] + whole[j] == 2 {
                assert!(at[i] < at[j], "frames of one sender out of order: {}", ctx());
            }
        }
    }
    for w in log_seq.windows(2) {
        assert!(w[1].wrapping_sub(w[0]) as usize <= sent.len() && w[0] != w[1], "log sequence numbers {log_seq:?}: {}", ctx());
    }
    let errs = sent.iter().filter(|s| !matches!(s.res, Res::Ok | Res::Abandoned)).count();
    let faults = usb::st(|s| s.faults);
    assert!(errs <= faults, "{errs} sends failed although only {faults} packets did: {}", ctx());
    for s in sent {
        assert!(s.res != Res::Other, "a frame that fits was refused: {}", ctx());
    }
    lens.iter().map(|l| if *l == MPS { 'M' } else if *l == 0 { '0' } else { 's' }).collect()
}

fn frame_of(how: How, who: usize, ix: usize, len: usize) -> Vec<u8> {
    match how {
        How::Send | How::Raw => {
            let mut f = frame(Key::for_path::<u8>("x"), 2, (who * 16 + ix) as u32 + 1, 1, &[]);
            // body: byte string with its length in front, or raw bytes
            if how == How::Send {
                let n = len.saturating_sub(f.len() + 1);
                let n = if n >= 128 { n - 1 } else { n };
                f.extend(postcard::to_stdvec(&body(n, who, ix)).unwrap());
            } else {
                f.extend(body(len.saturating_sub(f.len()), who, ix));
            }
            f
        }
        How::Empty | How::Broken => vec![],
        _ => {
            let mut f = frame(LoggingTopic::TOPIC_KEY, 1, 0, 2, &[]);
            let n = len.saturating_sub(f.len() + 1);
            let s = text(n.max(2), who, ix);
            f.extend(postcard::to_stdvec(s.as_str()).unwrap());
            f
        }
    }
}
fn body(n: usize, who: usize, ix: usize) -> Vec<u8> {
    (0..n).map(|i| (i as u8) ^ (who as u8 * 64 + ix as u8 * 16)).collect()
}
fn text(n: usize, who: usize, ix: usize) -> String {
    (0..n).map(|i| (b'a' + ((i + who * 7 + ix * 3) % 26) as u8) as char).collect()
}

async fn send<T: WireTx<Error = WireTxErrorKind>>(tx: &T, how: How, who: usize, ix: usize, len: usize) -> Result<(), WireTxErrorKind> {
    let f = frame_of(how, who, ix, len);
    match how {
        How::Raw | How::Empty => tx.send_raw(&f).await,
        How::Broken => {
            let hdr = VarHeader { key: VarKey::Key8(Key::for_path::<u8>("x")), seq_no: VarSeq::Seq4(1) };
            tx.send(hdr, &Unser(len)).await
        }
        How::Send => {
            let hdr = VarHeader { key: VarKey::Key8(Key::for_path::<u8>("x")).shrunk(VarKeyKind::Key2), seq_no: VarSeq::Seq1((who * 16 + ix) as u8 + 1) };
            let b: Vec<u8> = postcard::from_bytes(&f[4..]).unwrap();
            tx.send(hdr, &b).await
        }
        How::LogStr => {
            let s: String = postcard::from_bytes(&f[4..]).unwrap();
            tx.send_log_str(VarKeyKind::Key1, &s).await
        }
        How::LogFmt => {
            let s: String = postcard::from_bytes(&f[4..]).unwrap();
            let (a, b) = s.split_at(s.len() / 2);
            tx.send_log_fmt(VarKeyKind::Key1, format_args!("{a}{b}")).await
        }
    }
}

trait Shrunk {
    fn shrunk(self, k: VarKeyKind) -> Self;
}
impl Shrunk for VarKey {
    fn shrunk(mut self, k: VarKeyKind) -> VarKey {
        self.shrink_to(k);
        self
    }
}

async fn sender<T: WireTx<Error = WireTxErrorKind>>(tx: T, who: usize, jobs: Vec<(How, usize)>, may: bool, out: Sh<Vec<Sent>>) {
    for (ix, (how, len)) in jobs.into_iter().enumerate() {
        let at = vp_rt::now();
        let from = usb::st(|s| s.writes);
        let slot = out.with(|v| {
            v.push(Sent { who, frame: frame_of(how, who, ix, len), log: matches!(how, How::LogFmt | How::LogStr), none: match how {
                How::Empty => Some(Res::Ok),
                How::Broken => Some(Res::Other),
                _ => None,
            }, res: Res::Abandoned, took: Duration::ZERO, from, to: from });
            v.len() - 1
        });
        let r = {
            let f = send(&tx, how, who, ix, len);
            if may {
                may_drop(f).await.map(res).unwrap_or(Res::Abandoned)
            } else {
                res(f.await)
            }
        };
        vp_rt::log(|| format!("sender {who}: {how:?} of {len} bytes: {r:?}"));
        let to = usb::st(|s| s.writes);
        out.with(|v| {
            v[slot].res = r;
            v[slot].took = vp_rt::now() - at;
            v[slot].to = to;
        });
    }
}

#[derive(Clone)]
enum AnyTx {
    A(usb::v3::Tx),
    B(usb::v4::Tx),
}

fn transport(v4: bool, len: usize) -> AnyTx {
    if v4 {
        AnyTx::B(usb::v4::new(len, true).0)
    } else {
        AnyTx::A(usb::v3::new(len, true).0)
    }
}

fn spawn_sender(sim: &Sim, tx: &AnyTx, who: usize, jobs: Vec<(How, usize)>, may: bool, out: &Sh<Vec<Sent>>) {
    let name = format!("sender{who}");
    match tx.clone() {
        AnyTx::A(t) => sim.spawn(name, sender(t, who, jobs, may, out.clone())),
        AnyTx::B(t) => sim.spawn(name, sender(t, who, jobs, may, out.clone())),
    };
}

const LENS: [usize; 8] = [5, 63, 64, 65, 127, 128, 129, 192];

/// One sender, faults at any packet.
fn faults(sim: &Sim, how: How, n: usize, paced: bool) {
    let v4 = vp_rt::choose(2, "version") == 1;
    let ms = if v4 { [2, 1, 5, 60_000][vp_rt::choose(if n < 2 { 4 } else { 1 }, "timeout")] } else { 2 };
    let lens: Vec<usize> = (0..n).map(|_| LENS[vp_rt::choose(LENS.len(), "length")]).collect();
    let tx = transport(v4, 256);
    if let (AnyTx::B(t), true) = (&tx, ms != 2) {
        let mut f = pin!(t.set_timeout_ms_per_frame(match ms {
            1 => 0,
            60_000 => 70_000,
            m => m,
        }));
        assert!(f.as_mut().poll(&mut Context::from_waker(Waker::noop())).is_ready());
    }
    usb::st(|s| {
        s.faulty = true;
        s.pace = if paced { Duration::from_micros(250) } else { Duration::ZERO };
    });
    let out = Sh::new(vec![]);
    let mut jobs: Vec<_> = lens.iter().map(|l| (how, *l)).collect();
    if n == 1 {
        match vp_rt::choose(4, "in between") {
            0 => {}
            1 => jobs.push((How::Empty, 0)),
            2 => jobs.push((How::Broken, 0)),
            _ => jobs.push((How::Broken, 70)),
        }
    }
    jobs.push((How::Raw, 70)); // and one more
    spawn_sender(sim, &tx, 0, jobs, false, &out);
    sim.run();
    let sent = out.get();
    let s = judge(&sent);
    for x in &sent {
        let lim = |n: usize| Duration::from_millis((n.div_ceil(MPS) * ms) as u64);
        let limit = lim(x.frame.len());
        let most = lim(x.frame.len() + if x.log { 3 } else { 0 });
        assert!(x.took <= most + Duration::from_millis(1), "a send of {} bytes took {:?}, limit {limit:?}", x.frame.len(), x.took);
        if x.res == Res::Timeout {
            assert!(x.took >= limit, "a send of {} bytes gave up after {:?}, limit {limit:?}", x.frame.len(), x.took);
        }
    }
    // a send without faulty packets succeeds
    if usb::st(|s| s.faults) == 0 {
        assert!(sent.iter().all(|s| s.res == s.none.unwrap_or(Res::Ok)), "fails without a fault");
    }
    vp_rt::outcome(&format!("{s} {:?}", sent.iter().map(|s| s.res).collect::<Vec<_>>()));
}

/// Long frames on a slow bus: the time allowed grows with the number of packets.
fn long(sim: &Sim) {
    let v4 = vp_rt::choose(2, "version") == 1;
    let per = if v4 { [2, 7][vp_rt::choose(2, "timeout")] } else { 2 };
    let len = [64 * 7, 511, 512, 513, 1000, 1024, 4000, 4096, 9000, 16_384, 16_400, 65_536, 70_000][vp_rt::choose(13, "length")];
    let slow = vp_rt::choose(2, "too slow") == 1;
    let tx = transport(v4, 256);
    if let (AnyTx::B(t), true) = (&tx, per != 2) {
        let mut f = pin!(t.set_timeout_ms_per_frame(per));
        assert!(f.as_mut().poll(&mut Context::from_waker(Waker::noop())).is_ready());
    }
    // the closing empty packet is not counted in the time allowed
    let n = len / MPS + 1;
    let allowed = Duration::from_millis((len.div_ceil(MPS) * per) as u64);
    usb::st(|s| {
        s.faulty = false;
        s.pace = if slow { allowed / n as u32 + Duration::from_millis(1) } else { (allowed - Duration::from_millis(1)) / n as u32 };
    });
    let out = Sh::new(vec![]);
    spawn_sender(sim, &tx, 0, vec![(How::Raw, len)], false, &out);
    sim.run();
    let s = &out.get()[0];
    if slow {
        assert_eq!(s.res, Res::Timeout, "a send of {len} bytes on a bus that is too slow");
        assert!(s.took >= allowed && s.took <= allowed + Duration::from_millis(1), "a send of {len} bytes gave up after {:?}, allowed {allowed:?}", s.took);
    } else {
        assert_eq!(s.res, Res::Ok, "a send of {len} bytes within the time allowed ({allowed:?}, took {:?})", s.took);
        let got = usb::st(|s| std::mem::take(&mut s.packets));
        assert!(got == packets_of(&s.frame), "packets of a frame of {len} bytes");
    }
    vp_rt::outcome(&format!("{len} {slow} {v4} {per}"));
}

/// A transport whose state is left over from earlier uses: within the time allowed, too slow, and again.
fn times(sim: &Sim, tx: AnyTx) {
    let ms = Duration::from_millis;
    // pace, result, time allowed; frames of 5 packets
    for (i, (pace, want)) in [(ms(0), Res::Ok), (Duration::from_micros(1900), Res::Ok), (ms(3), Res::Timeout), (Duration::from_micros(1500), Res::Ok)].into_iter().enumerate() {
        usb::st(|s| {
            s.faulty = false;
            s.pace = pace;
            s.packets.clear();
        });
        let out = Sh::new(vec![]);
        spawn_sender(sim, &tx, i, vec![(How::Raw, 300)], false, &out);
        sim.run();
        let s = &out.get()[0];
        assert_eq!(s.res, want, "a send of 5 packets, one each {pace:?}");
        match want {
            Res::Timeout => assert!(s.took >= ms(10) && s.took <= ms(11), "gave up after {:?}", s.took),
            _ => {
                let got = usb::st(|s| std::mem::take(&mut s.packets));
                let frame = packets_of(&s.frame);
                // after one that was broken off, an empty packet ends that
                let skip = if i == 3 { vec![vec![]] } else { vec![] };
                assert!(got == [skip, frame].concat(), "packets {:?}", got.iter().map(|p| p.len()).collect::<Vec<_>>());
            }
        }
    }
}

/// Used by one execution at a time.
struct AssertSend<T>(T);
unsafe impl<T> Send for AssertSend<T> {}

/// After faults on the first writes, everything is sent again.
fn recovers(sim: &Sim) {
    let v4 = vp_rt::choose(2, "version") == 1;
    let tx = transport(v4, 256);
    usb::st(|s| {
        s.faulty = true;
        s.fault_until = Some(4);
    });
    let out = Sh::new(vec![]);
    let mut jobs: Vec<_> = (0..3).map(|_| (How::Send, [5, 64, 65, 128, 130][vp_rt::choose(5, "length")])).collect();
    jobs.extend([(How::LogStr, 64), (How::LogFmt, 70), (How::Raw, 128), (How::Send, 20)]);
    spawn_sender(sim, &tx, 0, jobs, false, &out);
    sim.run();
    let sent = out.get();
    judge(&sent);
    for x in sent.iter().filter(|x| x.from >= 4) {
        assert_eq!(x.res, Res::Ok, "the transport does not recover: {}", show(&sent));
    }
    vp_rt::outcome(&format!("{:?}", sent.iter().map(|s| s.res).collect::<Vec<_>>()));
}

/// Several senders, abandoned at any point.
fn concurrent(sim: &Sim, who: &[&[(How, usize)]], faulty: bool, may: bool, paced: bool) {
    let v4 = vp_rt::choose(2, "version") == 1;
    let tx = transport(v4, 256);
    usb::st(|s| {
        s.faulty = faulty;
        s.pace = if paced { Duration::from_micros(250) } else { Duration::ZERO };
    });
    let out = Sh::new(vec![]);
    for (i, j) in who.iter().enumerate() {
        spawn_sender(sim, &tx, i, j.to_vec(), may, &out);
    }
    sim.run();
    assert_eq!(sim.unfinished(), Vec::<String>::new(), "a sender hangs");
    let sent = out.get();
    let s = judge(&sent);
    vp_rt::outcome(&format!("{s} {:?}", sent.iter().map(|s| s.res).collect::<Vec<_>>()));
}

fn ready<F: Future>(f: F) -> F::Output {
    match pin!(f).poll(&mut Context::from_waker(Waker::noop())) {
        Poll::Ready(v) => v,
        Poll::Pending => panic!("waits although the endpoint accepts everything"),
    }
}

/// Packets of one frame of that length.
fn packets_of(f: &[u8]) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = f.chunks(MPS).map(|c| c.to_vec()).collect();
    if f.len() % MPS == 0 {
        v.push(vec![]);
    }
    v
}

pub fn run(a: Args) {
    let t = a.thorough;
    let mut r = Report::new(
        a,
        "model_checking",
        "each sequence of frame lengths with one fate per packet (sent, not fetched, fetched but not acknowledged, endpoint disabled), abandon point and schedule is one evaluation; the host's view is reassembled from the packets",
    );
    r.assume("the USB peripheral is a model of embassy-usb's driver interface; a write that is abandoned either had no effect or has completed, both are explored");
    fn lengths<T: WireTx<Error = WireTxErrorKind>>(c: &mut vp_rt::report::Cases, make: &dyn Fn(usize) -> T, bufs: &[usize], max: usize) {
        for &buf in bufs {
            vp_rt::report::beat();
            let tx = make(buf);
            for n in 0..max {
                for kn in [1, 2, 4, 8] {
                    for sn in [1, 2, 4] {
                        usb::st(|s| s.packets.clear());
                        let key = Key::for_path::<u16>("some/path");
                        let b = body(n, 1, 2);
                        let seq = 0x0403_02f1u32;
                        let hdr = VarHeader {
                            key: VarKey::Key8(key).shrunk(kk(kn)),
                            seq_no: match sn {
                                1 => VarSeq::Seq1(seq as u8),
                                2 => VarSeq::Seq2(seq as u16),
                                _ => VarSeq::Seq4(seq),
                            },
                        };
                        let f = frame(key, kn, seq, sn, &postcard::to_stdvec(&b).unwrap());
                        c.at(|| format!("buffer {buf}, frame of {} bytes, key {kn}, seq {sn}", f.len()));
                        let ok = ready(tx.send(hdr, &b)).is_ok();
                        let got = usb::st(|s| std::mem::take(&mut s.packets));
                        assert_eq!(ok, f.len() <= buf, "a frame of {} bytes with a buffer of {buf}: sent {ok}", f.len());
                        assert!(got == if ok { packets_of(&f) } else { vec![] }, "packets of a frame of {} bytes", f.len());
                        let raw = ready(tx.send_raw(&f)).is_ok();
                        let got = usb::st(|s| std::mem::take(&mut s.packets));
                        assert!(raw && got == packets_of(&f), "packets of a raw frame of {} bytes", f.len());
                        c.hit((buf as u64) << 32 | (f.len() as u64) << 8 | (kn * 8 + sn) as u64);
                    }
                }
            }
        }
    }
    let max = if t { 800 } else { 330 };
    let bufs = [0, 1, 3, 4, 5, 11, 12, 13, 64, 65, 76, 77, 140, 141, 142, 300];
    r.cases("every length and buffer size", |c| {
        lengths(c, &|b| usb::v3::new(b, false).0, &bufs, max);
        lengths(c, &|b| usb::v4::new(b, false).0, &bufs, max);
    });
    // this way of creating a transport works once per process
    let post = (usb::poststation3(200).0, usb::poststation4(200).0);
    r.cases("every length, a poststation device", |c| {
        lengths(c, &|_| post.0.clone(), &[200], max);
        lengths(c, &|_| post.1.clone(), &[200], max);
    });
    r.cases("log sequence numbers, a poststation device", |c| {
        logs(c, post.0.clone());
        logs(c, post.1.clone());
    });
    let post = std::sync::Mutex::new(AssertSend(post));
    r.explore(Config::new("times allowed, a poststation device", 0, 0).delays(), |s| {
        let p = post.lock().unwrap_or_else(|e| e.into_inner());
        times(s, AnyTx::A(p.0 .0.clone()));
        times(s, AnyTx::B(p.0 .1.clone()));
    });
    // through the sender handed to applications, past the wrap of the counter
    fn logs<T: WireTx<Error = WireTxErrorKind> + Clone>(c: &mut vp_rt::report::Cases, tx: T) {
        for i in 0..65_700u32 {
            let kn = [1, 2, 4, 8][i as usize % 4];
            let s = Sender::new(tx.clone(), kk(kn));
            usb::st(|s| s.packets.clear());
            c.at(|| format!("log message {i}"));
            if i % 2 == 0 {
                ready(s.log_str("abc")).ok().expect("sent");
            } else {
                ready(s.log_fmt(format_args!("{}{}", 12, 3))).ok().expect("sent");
            }
            let got = usb::st(|s| std::mem::take(&mut s.packets));
            assert_eq!(got.len(), 1);
            let (h, _) = decode(&got[0]).expect("header");
            assert_eq!(h.key, key_n(LoggingTopic::TOPIC_KEY, kn), "log key");
            assert_eq!(h.seq, seq_n(i, 2), "log sequence number of message {i}");
            c.hit(i as u64);
            if i % 4096 == 0 {
                vp_rt::report::beat();
            }
        }
    }
    r.cases("log sequence numbers", |c| {
        logs(c, usb::v3::new(64, true).0);
        logs(c, usb::v4::new(64, true).0);
        logs(c, usb::v3::new(64, false).0);
        logs(c, usb::v4::new(64, false).0);
    });
    for n in 1..=3 {
        let d = if t { n.min(2) + 2 } else { 3 };
        for how in [How::Raw, How::Send, How::LogStr, How::LogFmt] {
            if n == 3 && !t && how != How::Raw {
                continue;
            }
            r.explore(Config::new(format!("{n} frames ({how:?}), a fault at any packet"), 0, if n == 3 { d - 1 } else { d } as u8).delays(), |s| faults(s, how, n, false));
        }
    }
    r.explore(Config::new("slow packets, a fault at any of them", 0, 2).delays(), |s| faults(s, How::Raw, 2, true));
    r.explore(Config::new("long frames, slow bus", 0, 0).delays(), long);
    r.explore(Config::new("recovery", 0, 4).delays(), recovers);
    use How::*;
    let (p, d) = if t { (3, 2) } else { (2, 2) };
    r.explore(Config::new("two senders with faults", p, d).delays(), |s| concurrent(s, &[&[(Raw, 64), (Send, 70)], &[(Send, 130), (Raw, 9)]], true, false, true));
    r.explore(Config::new("two senders, abandoned", p, d).delays(), |s| concurrent(s, &[&[(Raw, 64), (Send, 70)], &[(Send, 130), (Raw, 9)]], false, true, true));
    r.explore(Config::new("two senders, abandoned or faulty", 1, 3).delays(), |s| concurrent(s, &[&[(Raw, 128), (Raw, 10)], &[(Raw, 65), (Send, 64)]], true, true, true));
    r.explore(Config::new("nothing to send, unserializable, abandoned", p, d).delays(), |s| concurrent(s, &[&[(Raw, 128), (Empty, 0), (Raw, 10)], &[(Broken, 70), (Send, 64)]], true, true, true));
    r.explore(Config::new("logs and frames", p, d).delays(), |s| concurrent(s, &[&[(LogStr, 64), (LogFmt, 70)], &[(LogFmt, 40), (Raw, 64)]], true, true, true));
    r.finish()
}
