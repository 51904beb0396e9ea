//! C17: COBS accumulator.

use postcard_rpc::accumulator::raw::{CobsAccumulator, FeedResult};
use crate::cobs::{cobs_decode, cobs_encode};
use vp_rt::report::{Args, Cases, Report};

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Ev {
    Frame(Vec<u8>),
    Bad,
    Over,
    /// anything but a frame with contents
    Empty,
}

/// What the stream means, for a buffer of `n` bytes (terminator included).
fn oracle(stream: &[u8], n: usize) -> Vec<Ev> {
    let mut v = vec![];
    let mut seg = vec![];
    for &b in stream {
        if b == 0 {
            v.push(if seg.is_empty() && n > 0 {
                Ev::Empty
            } else if seg.len() + 1 > n {
                Ev::Over
            } else {
                match cobs_decode(&seg) {
                    Some(d) => Ev::Frame(d),
                    None => Ev::Bad,
                }
            });
            seg.clear();
        } else {
            seg.push(b);
        }
    }
    v
}

/// Feed `chunks`; the events, and whether the last frame, still unterminated, was already
/// reported as over-long.
fn feed<const N: usize>(acc: &mut CobsAccumulator<N>, stream: &[u8], cuts: &[usize], by_ref: bool) -> Vec<Ev> {
    let mut out = vec![];
    let mut start = 0;
    let mut go = |chunk: &[u8]| {
        let mut w = chunk;
        let mut rounds = 0;
        loop {
            let r = if by_ref { acc.feed_ref(w) } else { acc.feed(w) };
            let before = w.len();
            w = match r {
                FeedResult::Consumed => return,
                FeedResult::OverFull(x) => {
                    out.push(Ev::Over);
                    x
                }
                FeedResult::DeserError(x) => {
                    out.push(Ev::Bad);
                    x
                }
                FeedResult::Success { data, remaining } => {
                    out.push(Ev::Frame(data.to_vec()));
                    remaining
                }
            };
            assert!(chunk.ends_with(w), "the remainder is not the end of the input");
            rounds += 1;
            assert!(rounds <= 2 * chunk.len() + 2, "the accumulator makes no progress ({before} bytes left)");
            if w.is_empty() {
                return;
            }
        }
    };
    for c in cuts.iter().copied().chain([stream.len()]) {
        go(&stream[start..c]);
        start = c;
    }
    out
}

/// Compare; an unterminated over-long tail may already have been reported.
fn check<const N: usize>(stream: &[u8], cuts: &[usize], by_ref: bool, want: &[Ev], tail: usize) {
    let mut acc = CobsAccumulator::<N>::new();
    let got = feed(&mut acc, stream, cuts, by_ref);
    if got == want {
        return;
    }
    // frames exactly, and an error report for every stretch of bad frames; how often a bad frame
    // is reported, and whether an empty one is reported at all, is not prescribed
    let g = norm(&got);
    let mut w = norm(want);
    if tail > N {
        w.last_mut().unwrap().1 = true;
    }
    let ok = g.len() == w.len()
        && g.iter().zip(&w).all(|(g, w)| g.2 == w.2 && (g.0 || !w.0) && (!g.0 || w.1));
    if !ok {
        panic!("buffer {N}: stream {stream:02x?} cut at {cuts:?} gives {got:?} instead of {want:?}");
    }
}

/// The frames with contents; before each, whether there must and whether there may be an error
/// report.
fn norm(v: &[Ev]) -> Vec<(bool, bool, Vec<u8>)> {
    let mut out = vec![];
    let (mut must, mut may) = (false, false);
    for e in v {
        match e {
            Ev::Frame(d) if !d.is_empty() => {
                out.push((must, may, d.clone()));
                (must, may) = (false, false);
            }
            Ev::Frame(_) => {}
            Ev::Empty => may = true,
            Ev::Bad | Ev::Over => (must, may) = (true, true),
        }
    }
    out.push((must, may, vec![]));
    out
}

fn tail_len(s: &[u8]) -> usize {
    s.iter().rev().take_while(|b| **b != 0).count()
}

fn all_chunkings<const N: usize>(c: &mut Cases, alphabet: &[u8], len: usize, cap_cuts: usize) {
    let k = alphabet.len();
    let total = k.pow(len as u32);
    let masks: Vec<Vec<usize>> = (0u32..1 << (len.max(1) - 1))
        .filter(|m| m.count_ones() as usize <= cap_cuts)
        .map(|m| (1..len).filter(|p| m >> (p - 1) & 1 == 1).collect())
        .collect();
    let mut s = vec![0u8; len];
    for x in 0..total {
        let mut y = x;
        for p in s.iter_mut() {
            *p = alphabet[y % k];
            y /= k;
        }
        let want = oracle(&s, N);
        let t = tail_len(&s);
        c.at(|| format!("buffer {N} stream {s:02x?}"));
        for m in &masks {
            check::<N>(&s, m, m.len() % 2 == 0, &want, t);
        }
        c.bulk(masks.len() as u64);
    }
}

/// Frames for the sequence enumeration, as segments without terminator.
fn segments(n: usize, rich: bool) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    for d in [0usize, 1, 2, n.saturating_sub(3), n.saturating_sub(2)] {
        v.push(cobs_encode(&(0..d).map(|i| i as u8 + 1).collect::<Vec<_>>()));
        if d > 0 {
            v.push(cobs_encode(&vec![0; d]));
        }
        if rich {
            v.push(cobs_encode(&(0..d).map(|i| ((i % 2) * 7) as u8).collect::<Vec<_>>()));
        }
    }
    // corrupt: first code points past the end
    v.push(vec![5, 1]);
    v.push(vec![1, 9, 2]);
    v.push(vec![3, 7]);
    // over-long, with tails that would themselves decode
    for extra in [0usize, 1, 2, n, n + 1] {
        v.push(vec![1; n + extra]);
        let mut x = vec![2; n + extra];
        if x.len() % 2 == 1 {
            x.push(2);
        }
        v.push(x);
    }
    v.sort();
    v.dedup();
    v
}

fn sequences<const N: usize>(c: &mut Cases, depth: usize, max_cuts: usize, rich: bool) {
    let segs = segments(N, rich);
    let k = segs.len();
    for x in 0..k.pow(depth as u32) {
        let mut y = x;
        let mut s = vec![];
        for _ in 0..depth {
            s.extend_from_slice(&segs[y % k]);
            s.push(0);
            y /= k;
        }
        // a valid frame must follow every error
        s.extend_from_slice(&cobs_encode(&[0x51, 0, 0x52]));
        s.push(0);
        let want = oracle(&s, N);
        c.at(|| format!("buffer {N} stream {s:02x?}"));
        let l = s.len();
        let mut n = 1;
        check::<N>(&s, &[], false, &want, 0);
        let all: Vec<usize> = (1..l).collect();
        check::<N>(&s, &all, true, &want, 0);
        for a in 1..l {
            check::<N>(&s, &[a], true, &want, 0);
            n += 1;
            if max_cuts >= 2 {
                for b in a..l {
                    check::<N>(&s, &[a, b], false, &want, 0);
                    n += 1;
                }
            }
        }
        // fixed-size reads
        for step in 2..=l.min(2 * N + 2) {
            let cuts: Vec<usize> = (1..l).filter(|p| p % step == 0).collect();
            check::<N>(&s, &cuts, true, &want, 0);
            n += 1;
        }
        c.bulk(n + 1);
    }
}

/// Frames around the 254-byte block boundary.
fn long_frames<const N: usize>(c: &mut Cases, lens: &[usize], two: bool) {
    for &l in lens {
        for pat in 0..3 {
            let d: Vec<u8> = (0..l)
                .map(|i| match pat {
                    0 => (i % 255) as u8 + 1,
                    1 => (i % 256) as u8,
                    _ => if i == 253 || i == 254 || i == 507 { 0 } else { 0xff },
                })
                .collect();
            let e = cobs_encode(&d);
            assert_eq!(cobs_decode(&e).as_ref(), Some(&d));
            let mut s = e.clone();
            s.push(0);
            s.extend_from_slice(&cobs::encode_vec(&d));
            s.push(0);
            s.extend_from_slice(&cobs_encode(&[1, 2, 3, 0]));
            s.push(0);
            let want = oracle(&s, N);
            c.at(|| format!("buffer {N} frame of {l} bytes pattern {pat}"));
            check::<N>(&s, &[], false, &want, 0);
            let all: Vec<usize> = (1..s.len()).collect();
            check::<N>(&s, &all, false, &want, 0);
            for a in 1..s.len() {
                check::<N>(&s, &[a], true, &want, 0);
                if two {
                    for b in [a + 1, a + 64, s.len() - 1, s.len() - 2] {
                        if b > a && b < s.len() {
                            check::<N>(&s, &[a, b], true, &want, 0);
                        }
                    }
                }
            }
            c.bulk(s.len() as u64);
        }
    }
}

/// Large frames in reads of one size, for several sizes.
fn few_chunkings<const N: usize>(c: &mut Cases, lens: &[usize]) {
    for &l in lens {
        let d: Vec<u8> = (0..l).map(|i| (i * 7 + i / 256) as u8).collect();
        let mut s = cobs_encode(&d);
        s.push(0);
        s.extend_from_slice(&cobs_encode(&[1, 2, 3, 0]));
        s.push(0);
        let want = oracle(&s, N);
        for step in [1, 7, 64, 255, 256, 1024, 4095, 32_768, 65_535, 65_536, 65_537, 1 << 20] {
            c.at(|| format!("buffer {N} frame of {l} bytes in reads of {step}"));
            let cuts: Vec<usize> = (1..s.len()).filter(|p| p % step == 0).collect();
            check::<N>(&s, &cuts, true, &want, 0);
            c.bulk(1);
        }
    }
}

pub fn run(a: Args) {
    let mut r = Report::new(a, "model_checking", "one case per (stream, buffer size, chunking)");
    let th = r.thorough();
    macro_rules! sizes {
        ($($n:literal)*) => {$(
            r.cases(&format!("every stream over 5 byte values, every chunking, buffer {}", $n), |c| {
                for len in 1..=(if th { 8 } else { 7 }) {
                    all_chunkings::<$n>(c, &[0, 1, 2, 3, 0xff], len, 9);
                }
                for len in 8..=(if th { 12 } else { 9 }) {
                    all_chunkings::<$n>(c, &[0, 1, 2], len, if len <= 9 && th { 12 } else if th { 4 } else { 3 });
                }
                c.sample(|| format!("buffer {}: all streams", $n));
            });
        )*};
    }
    sizes!(1 2 3 4 5 6 8);
    macro_rules! seqs {
        ($($n:literal)*) => {$(
            r.cases(&format!("sequences of valid, corrupt and over-long frames, buffer {}", $n), |c| {
                for d in 1..=3 {
                    sequences::<$n>(c, d, if d <= 2 || th { 2 } else { 1 }, d <= 2);
                }
                c.sample(|| format!("buffer {}: sequences", $n));
            });
        )*};
    }
    seqs!(5 6 7 8 16);
    r.cases("frames around the 254-byte block boundary", |c| {
        let lens: Vec<usize> = (240..270).chain(500..520).collect();
        long_frames::<1024>(c, &lens, th);
        long_frames::<256>(c, &(250..258).collect::<Vec<_>>(), true);
        long_frames::<257>(c, &(250..258).collect::<Vec<_>>(), true);
        long_frames::<1024>(c, &(1015..1025).collect::<Vec<_>>(), th);
    });
    r.cases("buffers and frames of every order of size", |c| {
        few_chunkings::<4096>(c, &[1023, 1024, 4000, 4080, 4096, 5000]);
        few_chunkings::<70_000>(c, &[4096, 65_000, 65_270, 65_535, 65_536, 69_000, 69_800, 70_100]);
    });
    r.finish()
}
