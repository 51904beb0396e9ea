//! C15: reception on the embassy USB transports.

use crate::common::{Flag, Sh};
use crate::usb::{self, Pkt, MPS};
use postcard_rpc::server::{WireRx, WireRxErrorKind};
use std::time::Duration;
use vp_rt::report::{Args, Report};
use vp_rt::{Config, Sim};

#[derive(Clone, PartialEq, Eq, Debug)]
enum Got {
    Frame(Vec<u8>),
    TooLarge,
    Closed,
}

fn data(len: usize, ix: usize) -> Vec<u8> {
    (0..len).map(|i| (i as u8).wrapping_mul(7) ^ (ix as u8).wrapping_mul(0x35) ^ 0x11).collect()
}

async fn receiver<R: WireRx<Error = WireRxErrorKind>>(mut rx: R, buf: usize, n: usize, got: Sh<Vec<Got>>, done: Flag) {
    // guards around the buffer the transport is given
    let mut mem = vec![0xa5u8; buf + 32];
    for _ in 0..n {
        let r = rx.receive(&mut mem[16..16 + buf]).await;
        let g = match r {
            Ok(f) => Got::Frame(f.to_vec()),
            Err(WireRxErrorKind::ReceivedMessageTooLarge) => Got::TooLarge,
            Err(WireRxErrorKind::ConnectionClosed) => Got::Closed,
            Err(_) => panic!("unexpected receive error"),
        };
        vp_rt::log(|| match &g {
            Got::Frame(f) => format!("received {} bytes", f.len()),
            x => format!("received {x:?}"),
        });
        got.with(|v| v.push(g));
        assert!(mem[..16].iter().chain(&mem[16 + buf..]).all(|b| *b == 0xa5), "wrote outside the receive buffer");
    }
    done.set();
}

/// What the host does.
#[derive(Clone, Debug)]
enum Act {
    Send(usize),
    /// the connection goes down after that many packets of a transfer of that length
    Cut(usize, usize),
}

fn show(g: &[Got]) -> String {
    let s: Vec<_> = g
        .iter()
        .map(|g| match g {
            Got::Frame(f) => format!("frame of {} bytes", f.len()),
            x => format!("{x:?}"),
        })
        .collect();
    s.join(", ")
}

fn script(sim: &Sim, v: usize, buf: usize, acts: &[Act], slow: bool, late: bool, drops: bool) {
    let got: Sh<Vec<Got>> = Sh::new(vec![]);
    let done = Flag::default();
    let mut want = vec![];
    let mut pk: Vec<Vec<Pkt>> = vec![];
    for (i, a) in acts.iter().enumerate() {
        let (len, cut) = match a {
            Act::Send(n) => (*n, None),
            Act::Cut(n, c) => (*n, Some(*c)),
        };
        let d = data(len, i);
        let mut p: Vec<Pkt> = d.chunks(MPS).map(|c| Pkt::Data(c.to_vec())).collect();
        if d.len() % MPS == 0 {
            p.push(Pkt::Data(vec![]));
        }
        if let Some(c) = cut {
            if c < p.len() {
                p.truncate(c);
                p.push(Pkt::Disabled);
                want.push(Got::Closed);
                pk.push(p);
                continue;
            }
        }
        want.push(if len <= buf { Got::Frame(d) } else { Got::TooLarge });
        pk.push(p);
    }
    // one more transfer must still be received
    let tail = data(buf.min(5), 9);
    want.push(Got::Frame(tail.clone()));
    pk.push(vec![Pkt::Data(tail)]);
    let n = want.len();
    let build = v & 1 == 0;
    if v < 2 {
        let (_, rx) = usb::v3::new(32, build);
        sim.spawn("device", receiver(rx, buf, n, got.clone(), done.clone()));
    } else {
        let (_, rx) = usb::v4::new(32, build);
        sim.spawn("device", receiver(rx, buf, n, got.clone(), done.clone()));
    }
    usb::st(|s| {
        s.slow_read = slow;
        s.overflow_drops = drops;
    });
    if late {
        sim.spawn("host", async move {
            for p in pk {
                for x in p {
                    vp_rt::sleep(Duration::from_millis(1)).await;
                    usb::host([x]);
                }
            }
        });
    } else {
        for p in pk {
            usb::host(p);
        }
    }
    sim.run();
    let g = got.with(std::mem::take);
    assert!(
        g == want,
        "buffer of {buf} bytes, host sends {acts:?} and 5 more bytes\n  received: {}\n  expected: {}{}",
        show(&g),
        show(&want),
        if show(&g) == show(&want) { " (contents differ)" } else { "" }
    );
    assert!(done.is_set());
    vp_rt::outcome(&show(&want));
}

fn version() -> usize {
    vp_rt::choose(4, "version")
}

/// Every length against every buffer size.
fn grid(sim: &Sim, bufs: usize, lens: usize) {
    let v = 2 * vp_rt::choose(2, "version");
    let buf = vp_rt::choose(bufs, "buffer") + 1;
    let len = vp_rt::choose(lens, "length");
    let drops = vp_rt::choose(2, "overflow") == 1;
    script(sim, v, buf, &[Act::Send(len)], false, false, drops)
}

fn lens(buf: usize) -> Vec<usize> {
    let mut l = vec![0, 1, 63, 64, 65, 128, 130, buf.saturating_sub(1), buf, buf + 1, buf.next_multiple_of(64), buf / 64 * 64, buf + 64, buf + 129];
    l.sort();
    l.dedup();
    l
}

/// Large buffers and transfers.
fn large(sim: &Sim) {
    let v = version();
    let buf = [250, 256, 512, 1000, 4096, 16_384, 65_535, 65_536, 66_000, 70_016][vp_rt::choose(10, "buffer")];
    let l = lens(buf);
    let n = l[vp_rt::choose(l.len(), "length")];
    let drops = vp_rt::choose(2, "overflow") == 1;
    script(sim, v, buf, &[Act::Send(n), Act::Send(buf), Act::Send(7)], false, false, drops)
}

const BUFS: [usize; 8] = [16, 63, 64, 65, 100, 128, 129, 192];

/// Sequences of transfers.
fn sequences(sim: &Sim, n: usize) {
    let v = version();
    let buf = BUFS[vp_rt::choose(BUFS.len(), "buffer")];
    let l = lens(buf);
    let acts: Vec<_> = (0..n).map(|_| Act::Send(l[vp_rt::choose(l.len(), "length")])).collect();
    let mode = vp_rt::choose(3, "pace");
    script(sim, v, buf, &acts, mode == 1, mode == 2, vp_rt::choose(2, "overflow") == 1)
}

/// Connection loss after any packet.
fn cuts(sim: &Sim, n: usize) {
    let v = version();
    let buf = BUFS[vp_rt::choose(BUFS.len(), "buffer")];
    let l = lens(buf);
    let acts: Vec<_> = (0..n)
        .map(|_| {
            let len = l[vp_rt::choose(l.len(), "length")];
            match vp_rt::choose(len / MPS + 2, "cut") {
                0 => Act::Send(len),
                c => Act::Cut(len, c - 1),
            }
        })
        .collect();
    script(sim, v, buf, &acts, false, vp_rt::choose(2, "late") == 1, true)
}

pub fn run(a: Args) {
    let t = a.thorough;
    let mut r = Report::new(
        a,
        "model_checking",
        "each sequence of transfers and disconnections with one buffer size, transport version and pacing is one evaluation; expected frames computed from what the host sent",
    );
    r.assume("the USB peripheral is a model of embassy-usb's driver interface: one packet of at most 64 bytes per read; a packet that does not fit the buffer of a read is an error after which it is lost or stays, depending on the driver");
    let (b, l) = if t { (520, 700) } else { (200, 330) };
    r.explore(Config::new("large buffers and transfers", 0, 0).delays(), large);
    r.explore(Config::new("every length x every buffer size", 0, 0).delays(), |s| grid(s, b, l));
    for n in 1..=if t { 4 } else { 3 } {
        r.explore(Config::new(format!("{n} transfers"), 0, 0).delays(), |s| sequences(s, n));
    }
    for n in 1..=if t { 3 } else { 2 } {
        r.explore(Config::new(format!("{n} transfers with disconnections"), 0, 0).delays(), |s| cuts(s, n));
    }
    r.finish()
}
