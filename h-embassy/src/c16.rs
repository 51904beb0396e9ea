//! C16: log messages on the embassy USB transports.

use crate::common::{decode, key_n, kk};
use crate::usb;
use postcard_rpc::server::{WireTx, WireTxErrorKind};
use postcard_rpc::standard_icd::LoggingTopic;
use postcard_rpc::Topic;
use std::fmt::{self, Display};
use std::future::Future;
use std::pin::pin;
use std::task::{Context, Poll, Waker};
use vp_rt::report::{Args, Cases, Report};

fn now<F: Future>(f: F) -> F::Output {
    match pin!(f).poll(&mut Context::from_waker(Waker::noop())) {
        Poll::Ready(v) => v,
        Poll::Pending => panic!("waits although the endpoint accepts everything"),
    }
}

/// Text written as the given fragments; fails after `fail` of them.
struct Parts<'a>(&'a [&'a str], Option<usize>);
impl Display for Parts<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for (i, p) in self.0.iter().enumerate() {
            if self.1 == Some(i) {
                return Err(fmt::Error);
            }
            f.write_str(p)?;
        }
        Ok(())
    }
}

/// Packets to frames.
fn frames(packets: &[Vec<u8>]) -> Vec<Vec<u8>> {
    let mut out = vec![];
    let mut cur = vec![];
    for p in packets {
        assert!(p.len() <= 64);
        cur.extend_from_slice(p);
        if p.len() < 64 {
            out.push(std::mem::take(&mut cur));
        }
    }
    assert!(cur.is_empty(), "the frame is not terminated");
    out
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    Str,
    Fmt,
    /// the formatted value reports an error of its own
    FmtErr,
}

fn varint_len(n: usize) -> usize {
    match n {
        0..=127 => 1,
        128..=16383 => 2,
        16384..=2097151 => 3,
        _ => 4,
    }
}

fn one<T: WireTx<Error = WireTxErrorKind>>(tx: &T, buf: usize, kn: usize, kind: Kind, parts: &[&str]) -> Option<usize> {
    usb::st(|s| s.packets.clear());
    let text: String = parts.concat();
    let r = match kind {
        Kind::Str => now(tx.send_log_str(kk(kn), &text)),
        Kind::Fmt => match parts {
            // without and with a literal part
            [a] => now(tx.send_log_fmt(kk(kn), format_args!("{a}"))),
            _ => now(tx.send_log_fmt(kk(kn), format_args!("{}", Parts(parts, None)))),
        },
        Kind::FmtErr => now(tx.send_log_fmt(kk(kn), format_args!("{}", Parts(parts, Some(parts.len() - 1))))),
    };
    one_judge(r, buf, kn, kind, &text)
}

fn one_judge(r: Result<(), WireTxErrorKind>, buf: usize, kn: usize, kind: Kind, text: &str) -> Option<usize> {
    let fs = frames(&usb::st(|s| std::mem::take(&mut s.packets)));
    let hdr = 1 + kn + 2;
    let room = buf.saturating_sub(hdr);
    match r {
        Err(_) => {
            assert!(fs.is_empty(), "a failed log message was sent nevertheless");
            let must = match kind {
                Kind::Str => varint_len(text.len()) + text.len() <= room,
                Kind::Fmt => varint_len(room) + text.len() <= room,
                Kind::FmtErr => false,
            };
            assert!(!must, "a log message of {} bytes is refused although the buffer has room for {room}", text.len());
            None
        }
        Ok(()) => {
            assert_eq!(fs.len(), 1, "frames sent for one log message");
            assert!(fs[0].len() <= buf, "the frame is larger than the buffer");
            let (h, body) = decode(&fs[0]).expect("no header");
            assert_eq!(h.key, key_n(LoggingTopic::TOPIC_KEY, kn), "log key");
            assert_eq!(h.seq.len(), 2, "log sequence number");
            let (got, rest): (String, &[u8]) = postcard::take_from_bytes(body)
                .unwrap_or_else(|e| panic!("{kind:?}, buffer {buf}, key {kn}: the message does not decode ({e:?}): text of {} bytes, body {body:02x?}", text.len()));
            assert!(rest.is_empty(), "{} bytes follow the message", rest.len());
            if got == *text {
                return Some(got.len());
            }
            assert!(kind != Kind::Str, "plain text was changed");
            if kind == Kind::Fmt {
                assert!(varint_len(room) + text.len() > room, "a text of {} bytes that fits {room} bytes arrives as {} bytes", text.len(), got.len());
            }
            let is_prefix = text.starts_with(got.as_str());
            let dotted = got.strip_suffix("...").is_some_and(|g| text.starts_with(g));
            assert!(is_prefix || dotted, "not a truncation: {} bytes of {}", got.len(), text.len());
            if kind == Kind::Fmt {
                // keeps what there is room for, up to the dots and a split character
                assert!(got.len() + 6 >= room - varint_len(room), "only {} of {room} bytes are used", got.len());
            }
            Some(got.len())
        }
    }
}

/// Texts of exactly `n` bytes: `c` as often as it fits, the rest ASCII in front.
fn text(n: usize, c: char, shift: usize) -> String {
    let mut s = String::new();
    for _ in 0..shift.min(n) {
        s.push('a');
    }
    while s.len() + c.len_utf8() <= n {
        s.push(c);
    }
    while s.len() < n {
        s.push('z');
    }
    s
}

fn sweep<T: WireTx<Error = WireTxErrorKind>>(c: &mut Cases, name: &str, make: &dyn Fn(usize) -> T, bufs: &[usize], lens: &[usize], shapes: usize) {
    for &buf in bufs {
        for kn in [1, 2, 4, 8] {
            vp_rt::report::beat();
            let tx = make(buf);
            for &n in lens {
                for (ci, ch) in ['x', 'é', '€', '🦀'].into_iter().enumerate() {
                    for shift in 0..if ci == 0 { 1 } else { ch.len_utf8() } {
                        let t = text(n, ch, shift);
                        for kind in [Kind::Str, Kind::Fmt, Kind::FmtErr] {
                            for shape in 0..if kind == Kind::Str { 1 } else { shapes } {
                                // where the text is split into fragments
                                let cut = |at: usize| (0..=at.min(t.len())).rev().find(|i| t.is_char_boundary(*i)).unwrap();
                                let parts: Vec<&str> = match shape {
                                    0 => vec![&t],
                                    1 => vec![&t[..cut(n / 2)], &t[cut(n / 2)..]],
                                    2 => {
                                        let (a, b) = (cut(buf.saturating_sub(3 + kn + 1)), cut(buf.saturating_sub(3 + kn)));
                                        vec![&t[..a.min(b)], &t[a.min(b)..b], &t[b..]]
                                    }
                                    _ => t.split_inclusive(|_| true).collect(),
                                };
                                if kind == Kind::FmtErr && parts.is_empty() || kind == Kind::Fmt && parts.is_empty() {
                                    continue;
                                }
                                c.at(|| format!("{name}: buffer {buf}, key {kn}, {n} bytes of {ch:?} shifted by {shift}, {kind:?}, {} fragments", parts.len()));
                                let r = one(&tx, buf, kn, kind, &parts);
                                let cls = match r {
                                    None => 0u64,
                                    Some(m) if m == t.len() => 1,
                                    Some(m) => 2 + m as u64,
                                };
                                c.hit(cls << 24 | (buf as u64) << 4 | kn as u64);
                            }
                        }
                    }
                }
            }
        }
    }
}

/// Every character there is, alone, at the start, at the end, where the buffer ends, and repeated.
fn chars<T: WireTx<Error = WireTxErrorKind>>(c: &mut Cases, name: &str, make: &dyn Fn(usize) -> T, step: u32) {
    for buf in [64, 12] {
        chars_in(c, name, &make(buf), buf, step);
    }
}

fn chars_in<T: WireTx<Error = WireTxErrorKind>>(c: &mut Cases, name: &str, tx: &T, buf: usize, step: u32) {
    let mut v = 0u32;
    while v <= 0x10ffff {
        if let Some(ch) = char::from_u32(v) {
            let x: &str = ch.encode_utf8(&mut [0; 4]).to_string().leak_once();
            c.at(|| format!("{name}: character {ch:?}"));
            for kind in [Kind::Str, Kind::Fmt] {
                // (a buffer of 12 has room for 7 bytes of text)
                for parts in [&[x][..], &["a", x], &[x, "a"], &[x, x, x], &["abcd", x, x], &["abcdef", x]] {
                    one(tx, buf, 1, kind, parts);
                }
            }
            c.hit((buf as u64) << 32 | v as u64);
        }
        v += if v < 0x3000 { 1 } else { step };
        if v % 4096 == 0 {
            vp_rt::report::beat();
        }
    }
}

trait LeakOnce {
    fn leak_once(self) -> &'static str;
}
impl LeakOnce for String {
    fn leak_once(self) -> &'static str {
        // one buffer per thread is enough: the text lives until the next call
        thread_local! { static B: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
        B.with(|b| {
            *b.borrow_mut() = self;
            let b = b.borrow();
            unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(b.as_ptr(), b.len())) }
        })
    }
}

/// Format strings of several forms, among them ones without arguments.
fn forms<T: WireTx<Error = WireTxErrorKind>>(c: &mut Cases, name: &str, make: &dyn Fn(usize) -> T) {
    for buf in 0..400 {
        let tx = make(buf);
        for kn in [1, 2, 4, 8] {
            macro_rules! case {
                ($($x:tt)*) => {{
                    let text = format!($($x)*);
                    c.at(|| format!("{name}: buffer {buf}, key {kn}, text {text:?}"));
                    usb::st(|s| s.packets.clear());
                    let r = now(tx.send_log_fmt(kk(kn), format_args!($($x)*)));
                    one_judge(r, buf, kn, Kind::Fmt, &text);
                    c.bulk(1);
                }};
            }
            case!("");
            case!("x");
            case!("plain text without arguments");
            case!("{{}} braces \n");
            case!("{}", "");
            case!("{}{}{}", "", 'x', "");
            case!("{:>10}|{:<10}|{:^10}", 1, "two", 3.5);
            case!("{:#?}", Some((1, "two")));
            case!("{:0300}", 7);
            case!("01234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789");
            case!("...");
            case!("a text that ends in dots{}", "...");
        }
    }
}

pub fn run(a: Args) {
    let t = a.thorough;
    let mut r = Report::new(
        a,
        "model_checking",
        "each (transport version, buffer size, key length, text, way of formatting) is one evaluation, driven through the real transport into a model endpoint; frames decoded independently",
    );
    r.assume("the endpoint accepts every packet at once here; delivery under faults is C14");
    let near = |b: usize| -> Vec<usize> { (b.saturating_sub(16)..b + 6).collect() };
    // small buffers, every text length
    let small: Vec<usize> = (0..if t { 80 } else { 40 }).collect();
    let lens: Vec<usize> = (0..if t { 90 } else { 50 }).collect();
    r.cases("small buffers", |c| {
        sweep(c, "embassy-usb 0.3", &|b| usb::v3::new(b, true).0, &small, &lens, 4);
        sweep(c, "embassy-usb 0.4", &|b| usb::v4::new(b, true).0, &small, &lens, 4);
    });
    // around the points where the length prefix grows
    let mid: Vec<usize> = (128..150).chain(250..280).chain([512, 1024]).collect();
    r.cases("buffers around the length prefix boundaries", |c| {
        for b in &mid {
            let mut l = near(*b);
            l.extend([0, 1, 100, 125, 126, 127, 128, 129, 130, 200, 255, 256, 257, 300, 400, 600, 1100, 2000]);
            if !t {
                l.retain(|n| n + 18 > *b && *n < b + 3 || [0, 126, 127, 128, 129, 255, 256, 400, 2000].contains(n));
            }
            sweep(c, "embassy-usb 0.3", &|b| usb::v3::new(b, true).0, &[*b], &l, 3);
            sweep(c, "embassy-usb 0.4", &|b| usb::v4::new(b, true).0, &[*b], &l, 3);
        }
    });
    r.cases("every character", |c| {
        let step = if t { 1 } else { 13 };
        chars(c, "embassy-usb 0.3", &|b| usb::v3::new(b, true).0, step);
        chars(c, "embassy-usb 0.4", &|b| usb::v4::new(b, true).0, step);
    });
    r.cases("forms of format strings", |c| {
        forms(c, "embassy-usb 0.3", &|b| usb::v3::new(b, true).0);
        forms(c, "embassy-usb 0.4", &|b| usb::v4::new(b, true).0);
    });
    r.cases("buffers past two megabytes", |c| {
        // the length prefix grows to four bytes
        for b in [(1 << 21) - 1, (1 << 21) + 16, (1 << 21) + (1 << 20)] {
            for n in [5, 2097151, 2097152, b - 20, b - 10, b + 7] {
                let s = text(n, 'x', 0);
                for v4 in [false, true] {
                    for kind in [Kind::Str, Kind::Fmt] {
                        c.at(|| format!("buffer {b}, {n} bytes, {kind:?}, 0.4: {v4}"));
                        if v4 {
                            one(&usb::v4::new(b, true).0, b, 1, kind, &[&s]);
                        } else {
                            one(&usb::v3::new(b, true).0, b, 1, kind, &[&s]);
                        }
                        c.bulk(1);
                        vp_rt::report::beat();
                    }
                }
            }
        }
    });
    r.cases("large buffers", |c| {
        let big: Vec<usize> = if t { (16380..16412).chain(32760..32800).collect() } else { vec![16384, 16386, 16394, 16395, 16396, 16397, 16400, 20000, 32768, 32790] };
        for b in big {
            let l = vec![0, 127, 128, 16383, 16384, b.saturating_sub(14), b - 10, b - 6, b, b + 10];
            sweep(c, "embassy-usb 0.3", &|b| usb::v3::new(b, true).0, &[b], &l, 2);
            sweep(c, "embassy-usb 0.4", &|b| usb::v4::new(b, true).0, &[b], &l, 2);
        }
    });
    r.finish()
}
