//! C09: header codec. C10: key/sequence reduction and comparison.

use crate::common::*;
use postcard_rpc::header::{VarHeader, VarKey, VarSeq};
use postcard_rpc::host_client::RpcFrame;
use postcard_rpc::{Key, Key1, Key2, Key4, TooSmall};
use vp_rt::report::{Args, Cases, Report};

pub fn key8(b: [u8; 8]) -> Key {
    unsafe { Key::from_bytes(b) }
}

pub fn var_bytes(k: &VarKey) -> Vec<u8> {
    match k {
        VarKey::Key1(k) => vec![k.to_bytes()],
        VarKey::Key2(k) => k.to_bytes().to_vec(),
        VarKey::Key4(k) => k.to_bytes().to_vec(),
        VarKey::Key8(k) => k.to_bytes().to_vec(),
    }
}

/// A `VarKey` with exactly these bytes.
pub fn mk(b: &[u8]) -> VarKey {
    let n = b.len();
    // a full key that folds to b
    let mut full = [0u8; 8];
    for (i, v) in b.iter().enumerate() {
        full[i * (8 / n)] = *v;
    }
    let k = match n {
        1 => VarKey::Key1(Key1::from_key8(key8(full))),
        2 => VarKey::Key2(Key2::from_key8(key8(full))),
        4 => VarKey::Key4(Key4::from_key8(key8(full))),
        _ => VarKey::Key8(key8(full)),
    };
    if var_bytes(&k) == b {
        return k;
    }
    // folding is not what this is about: take one from the decoder
    let f = encode(&Hdr { key: b.to_vec(), seq: vec![0] }, &[]);
    let (h, _) = VarHeader::take_from_slice(&f).expect("a well-formed header was rejected");
    assert_eq!(var_bytes(&h.key), b, "cannot make a {n}-byte key {b:02x?}");
    h.key
}

fn mks(b: &[u8]) -> VarSeq {
    let mut x = [0u8; 4];
    x[..b.len()].copy_from_slice(b);
    let v = u32::from_le_bytes(x);
    match b.len() {
        1 => VarSeq::Seq1(v as u8),
        2 => VarSeq::Seq2(v as u16),
        _ => VarSeq::Seq4(v),
    }
}

pub fn seq_bytes(s: &VarSeq) -> Vec<u8> {
    match s {
        VarSeq::Seq1(v) => v.to_le_bytes().to_vec(),
        VarSeq::Seq2(v) => v.to_le_bytes().to_vec(),
        VarSeq::Seq4(v) => v.to_le_bytes().to_vec(),
    }
}

fn same(h: &VarHeader, key: &[u8], seq: &[u8]) -> bool {
    var_bytes(&h.key) == key && seq_bytes(&h.seq_no) == seq
}

/// Byte strings of length `n`: every value for n<=2; for longer ones every byte value at each
/// position (and every pair of neighbours when `pairs`) over several backgrounds.
fn strings(n: usize, pairs: bool) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    if n == 1 {
        v.extend((0..=255u8).map(|a| vec![a]));
    } else if n == 2 {
        v.extend((0..=0xffffu32).map(|a| vec![a as u8, (a >> 8) as u8]));
    } else {
        let bgs: [Vec<u8>; 3] = [
            vec![0; n],
            vec![0xff; n],
            (0..n).map(|i| 0x11u8.wrapping_mul(2 * i as u8 + 3)).collect(),
        ];
        for bg in bgs.iter() {
            for p in 0..n {
                for x in 0..=255u8 {
                    let mut b = bg.clone();
                    b[p] = x;
                    v.push(b);
                    if pairs {
                        for y in [0u8, 1, 0x7f, 0x80, 0xff, 0x5a] {
                            let mut b = bg.clone();
                            b[p] = x;
                            b[(p + 1) % n] = y;
                            v.push(b);
                        }
                    }
                }
            }
        }
        v.sort();
        v.dedup();
    }
    v
}

fn one(c: &mut Cases, kb: &[u8], sb: &[u8], deep: bool) {
    let h = VarHeader { key: mk(kb), seq_no: mks(sb) };
    let want = encode(&Hdr { key: kb.to_vec(), seq: sb.to_vec() }, &[]);
    let n = want.len();
    let ctx = || format!("key {kb:02x?} seq {sb:02x?}");
    let v = h.write_to_vec();
    assert_eq!(v, want, "write_to_vec, {}", ctx());
    let mut cases = 1u64;
    let sizes: Vec<usize> = if deep { (0..=n + 3).collect() } else { vec![n - 1, n, n + 2] };
    let mut store = [0u8; 24];
    for sz in sizes {
        for fill in [0xA5u8, 0x00, 0xff] {
            store.fill(fill);
            let p = store.as_ptr();
            let r = h.write_to_slice(&mut store[..sz]);
            cases += 1;
            match r {
                None => assert!(sz < n, "write_to_slice refused a buffer of {sz} for {n} bytes, {}", ctx()),
                Some((used, rest)) => {
                    assert!(sz >= n, "write_to_slice accepted a buffer of {sz} for {n} bytes, {}", ctx());
                    assert_eq!(used, &want[..], "write_to_slice into {sz} bytes filled with {fill:02x}, {}", ctx());
                    assert!(used.as_ptr() == p, "header not at the front of the buffer, {}", ctx());
                    assert_eq!(rest.len(), sz - n, "remaining buffer, {}", ctx());
                    assert!(rest.is_empty() || rest.as_ptr() == unsafe { p.add(n) });
                    assert!(rest.iter().all(|b| *b == fill), "bytes after the header were changed, {}", ctx());
                }
            }
            assert!(store[sz..].iter().all(|b| *b == fill), "wrote outside the buffer, {}", ctx());
            if !deep {
                break;
            }
        }
    }
    // decode: with tails and truncations
    let tails: &[&[u8]] = if deep {
        &[&[], &[0], &[0xff, 0x00], &[0xc0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16]]
    } else {
        &[&[], &[0x7e, 0x00, 0x01]]
    };
    for t in tails {
        let mut f = want.clone();
        f.extend_from_slice(t);
        let (d, rest) = VarHeader::take_from_slice(&f).unwrap_or_else(|| panic!("rejected its own encoding, {}", ctx()));
        assert!(same(&d, kb, sb), "decoded {d:?}, {}", ctx());
        assert!(d == h, "{d:?} != {h:?}");
        assert_eq!(rest, *t, "payload after the header, {}", ctx());
        let fr = RpcFrame { header: h, body: t.to_vec() };
        assert_eq!(fr.to_bytes(), f, "RpcFrame::to_bytes, {}", ctx());
        cases += 2;
    }
    if deep {
        for k in 0..n {
            assert!(VarHeader::take_from_slice(&want[..k]).is_none(), "accepted a header cut to {k} of {n} bytes, {}", ctx());
            cases += 1;
        }
    }
    c.bulk(cases);
}

fn check_bytes(b: &[u8]) {
    let mine = decode(b);
    let theirs = VarHeader::take_from_slice(b);
    match (mine, theirs) {
        (None, None) => {}
        (Some((h, rest)), Some((d, r2))) => {
            assert!(same(&d, &h.key, &h.seq), "{b:02x?}: decoded {d:?} instead of {h:?}");
            assert!(rest == r2, "{b:02x?}: payload {r2:02x?} instead of {rest:02x?}");
            let e = d.write_to_vec();
            assert!(b.starts_with(&e), "{b:02x?}: re-encodes to {e:02x?}");
        }
        (m, t) => panic!("{b:02x?}: decoder says {t:?}, the documented format says {m:?}"),
    }
}

pub fn run(a: Args) {
    if a.prop == "C10" {
        return run10(a);
    }
    let mut r = Report::new(
        a,
        "model_checking",
        "a header/byte string counts once per (value, operation, buffer size or tail)",
    );
    let th = r.thorough();
    let ks = [1usize, 2, 4, 8];
    let ss = [1usize, 2, 4];
    for kn in ks {
        for sn in ss {
            r.cases(&format!("all-headers key{kn} seq{sn}"), |c| {
                let bgk: Vec<Vec<u8>> = vec![vec![0; kn], vec![0xff; kn], (0..kn).map(|i| 0x21 + 0x13 * i as u8).collect()];
                let bgs: Vec<Vec<u8>> = vec![vec![0; sn], vec![0xff; sn], (0..sn).map(|i| 0x91 - 0x17 * i as u8).collect()];
                for kb in strings(kn, th) {
                    for sb in &bgs {
                        c.at(|| format!("key {kb:02x?} seq {sb:02x?}"));
                        one(c, &kb, sb, kb.len() != 2 || true);
                    }
                }
                for sb in strings(sn, th) {
                    for kb in &bgk {
                        c.at(|| format!("key {kb:02x?} seq {sb:02x?}"));
                        one(c, kb, &sb, sb.len() != 2 || true);
                    }
                }
                if kn == 1 && sn == 1 {
                    for x in 0..=255u8 {
                        for y in 0..=255u8 {
                            one(c, &[x], &[y], true);
                        }
                    }
                }
                c.sample(|| format!("header key{kn}/seq{sn}: every encoder, buffer size, tail and truncation"));
            });
        }
    }
    r.cases("large buffers and payloads", |c| {
        let mut store = vec![0x11u8; 1 << 20];
        for size in [21usize, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4096, 32767, 32768, 65535, 65536, 65537, 1 << 20] {
            vp_rt::report::beat();
            for kn in ks {
                for sn in ss {
                    let kb: Vec<u8> = (0..kn).map(|i| 0x21 + 0x13 * i as u8).collect();
                    let sb: Vec<u8> = (0..sn).map(|i| 0x91 - 0x17 * i as u8).collect();
                    let h = VarHeader { key: mk(&kb), seq_no: mks(&sb) };
                    let n = 1 + kn + sn;
                    c.at(|| format!("key of {kn}, sequence number of {sn}, {size} bytes"));
                    let buf = &mut store[..size];
                    buf.fill(0x11);
                    let (used, rest) = h.write_to_slice(buf).unwrap_or_else(|| panic!("write_to_slice refused a buffer of {size} bytes"));
                    assert_eq!(used, &encode(&Hdr { key: kb.clone(), seq: sb.clone() }, &[])[..]);
                    assert!(rest.len() == size - n && rest.iter().all(|b| *b == 0x11), "the rest of a buffer of {size} bytes");
                    let (d, tail) = VarHeader::take_from_slice(buf).unwrap_or_else(|| panic!("rejected a frame of {size} bytes"));
                    assert!(same(&d, &kb, &sb) && tail.len() == size - n, "frame of {size} bytes");
                    assert!(RpcFrame { header: h, body: buf[n..].to_vec() }.to_bytes() == *buf, "RpcFrame::to_bytes, {size} bytes");
                    c.hit(c.n);
                }
            }
        }
    });
    r.cases("all byte strings of length <=3", |c| {
        check_bytes(&[]);
        for a in 0..=255u8 {
            c.at(|| format!("bytes starting {a:02x}"));
            check_bytes(&[a]);
            for b in 0..=255u8 {
                check_bytes(&[a, b]);
                for x in 0..=255u8 {
                    check_bytes(&[a, b, x]);
                }
                c.bulk(257);
            }
            c.bulk(1);
        }
        c.sample(|| "2^24 strings, decoder against the documented format".into());
    });
    r.cases("every discriminant x every length", |c| {
        for d in 0..=255u8 {
            for len in 0..=20usize {
                for bg in [0u8, 0xff, 0x35] {
                    let mut b = vec![bg; len];
                    if len > 0 {
                        b[0] = d;
                    }
                    for (i, x) in b.iter_mut().enumerate().skip(1) {
                        *x = x.wrapping_add((i as u8).wrapping_mul(bg & 0x0f));
                    }
                    c.at(|| format!("{b:02x?}"));
                    check_bytes(&b);
                    c.bulk(1);
                    for p in 1..len {
                        for x in [0u8, 1, 0x40, 0x80, 0xc0, 0xff] {
                            let mut b2 = b.clone();
                            b2[p] = x;
                            check_bytes(&b2);
                            c.bulk(1);
                        }
                    }
                }
            }
        }
        c.sample(|| "256 discriminants x lengths 0..20 x backgrounds".into());
    });
    r.assume("longer keys and sequence numbers are covered position by position over backgrounds, not by all 2^64 values");
    r.finish()
}

// ---------------------------------------------------------------------------

/// Folding of `b` to `n` bytes, by the documented formula.
fn fold(b: &[u8], n: usize) -> Vec<u8> {
    let k = b.len() / n;
    (0..n).map(|i| b[i * k..(i + 1) * k].iter().fold(0, |a, x| a ^ x)).collect()
}

fn conv(k: &VarKey) -> [Option<Vec<u8>>; 4] {
    [
        Key1::try_from_varkey(k).map(|k| vec![k.to_bytes()]),
        Key2::try_from_varkey(k).map(|k| k.to_bytes().to_vec()),
        Key4::try_from_varkey(k).map(|k| k.to_bytes().to_vec()),
        Key::try_from(k).ok().map(|k| k.to_bytes().to_vec()),
    ]
}

fn conv2(k: &VarKey) -> [Result<Vec<u8>, TooSmall>; 4] {
    [
        Key1::try_from(k).map(|k| vec![k.to_bytes()]),
        Key2::try_from(k).map(|k| k.to_bytes().to_vec()),
        Key4::try_from(k).map(|k| k.to_bytes().to_vec()),
        Key::try_from(k).map(|k| k.to_bytes().to_vec()),
    ]
}

const LENS: [usize; 4] = [1, 2, 4, 8];

fn reductions(c: &mut Cases, b: &[u8]) {
    let k = mk(b);
    let n = b.len();
    let mut done = 0;
    assert_eq!(kk_len(k.kind()), n);
    for (i, m) in LENS.iter().enumerate() {
        // shrink_to
        let mut s = k;
        s.shrink_to(kk(*m));
        let want = if *m < n { fold(b, *m) } else { b.to_vec() };
        assert_eq!(var_bytes(&s), want, "{b:02x?} shrunk to {m}");
        // conversions
        let want = if *m <= n { Some(fold(b, *m)) } else { None };
        assert_eq!(conv(&k)[i], want, "{b:02x?} try_from_varkey to {m}");
        assert_eq!(conv2(&k)[i], want.clone().ok_or(TooSmall), "{b:02x?} TryFrom to {m}");
        // every path
        for m2 in LENS {
            for m3 in LENS {
                let mut s = k;
                s.shrink_to(kk(*m));
                s.shrink_to(kk(m2));
                s.shrink_to(kk(m3));
                let t = (*m).min(m2).min(m3).min(n);
                assert_eq!(var_bytes(&s), fold(b, t), "{b:02x?} shrunk to {m}, {m2}, {m3}");
                done += 1;
            }
        }
        done += 3;
    }
    // the typed conversions
    let mut ty: Vec<(&str, usize, Vec<u8>)> = vec![];
    let v1 = |k: Key1| vec![k.to_bytes()];
    match k {
        VarKey::Key1(_) => {}
        VarKey::Key2(k) => {
            ty.push(("Key1::from_key2", 1, v1(Key1::from_key2(k))));
            ty.push(("From<Key2> for Key1", 1, v1(k.into())));
        }
        VarKey::Key4(k) => {
            ty.push(("Key1::from_key4", 1, v1(Key1::from_key4(k))));
            ty.push(("From<Key4> for Key1", 1, v1(k.into())));
            ty.push(("Key2::from_key4", 2, Key2::from_key4(k).to_bytes().to_vec()));
            ty.push(("From<Key4> for Key2", 2, Key2::from(k).to_bytes().to_vec()));
        }
        VarKey::Key8(k) => {
            ty.push(("Key1::from_key8", 1, v1(Key1::from_key8(k))));
            ty.push(("From<Key> for Key1", 1, v1(k.into())));
            ty.push(("Key2::from_key8", 2, Key2::from_key8(k).to_bytes().to_vec()));
            ty.push(("From<Key> for Key2", 2, Key2::from(k).to_bytes().to_vec()));
            ty.push(("Key4::from_key8", 4, Key4::from_key8(k).to_bytes().to_vec()));
            ty.push(("From<Key> for Key4", 4, Key4::from(k).to_bytes().to_vec()));
        }
    }
    for (nm, m, got) in ty {
        assert_eq!(got, fold(b, m), "{nm} of {b:02x?}");
        done += 1;
    }
    c.bulk(done);
}

fn eq(c: &mut Cases, a: &[u8], b: &[u8]) {
    let m = a.len().min(b.len());
    let want = fold(a, m) == fold(b, m);
    let (ka, kb) = (mk(a), mk(b));
    assert_eq!(ka == kb, want, "{a:02x?} == {b:02x?}");
    assert_eq!(kb == ka, want, "{b:02x?} == {a:02x?}");
    assert_eq!(ka != kb, !want);
    let (ha, hb) = (VarHeader { key: ka, seq_no: VarSeq::Seq2(7) }, VarHeader { key: kb, seq_no: VarSeq::Seq2(7) });
    assert_eq!(ha == hb, want, "headers with keys {a:02x?} and {b:02x?}");
    c.bulk(4);
}

fn run10(a: Args) {
    let mut r = Report::new(a, "model_checking", "one case per (value, operation or path); values enumerated in the stated domain");
    let th = r.thorough();
    for n in LENS {
        r.cases(&format!("reduction of {n}-byte keys"), |c| {
            for b in strings(n, true) {
                c.at(|| format!("{b:02x?}"));
                reductions(c, &b);
            }
            c.sample(|| format!("{n}-byte keys: shrink_to over all paths, every conversion"));
        });
    }
    for n in LENS {
        for m in LENS {
            if m < n {
                continue;
            }
            r.cases(&format!("comparison {n} with {m}"), |c| {
                // b ranges over m-byte keys; a is b's folding, changed in nothing or one byte/bit
                for b in strings(m, th) {
                    if m == 2 && !th && n == 2 && b[0] % 5 != 0 {
                        continue;
                    }
                    c.at(|| format!("{b:02x?}"));
                    let base = fold(&b, n);
                    eq(c, &base, &b);
                    for p in 0..n {
                        for d in [1u8, 2, 4, 8, 0x10, 0x20, 0x40, 0x80, 0xff] {
                            let mut x = base.clone();
                            x[p] ^= d;
                            eq(c, &x, &b);
                        }
                    }
                    // differences that cancel when folded further
                    for p in 0..n {
                        for q in p + 1..n {
                            for d in [1u8, 0x80, 0xff] {
                                let mut x = base.clone();
                                x[p] ^= d;
                                x[q] ^= d;
                                eq(c, &x, &b);
                            }
                        }
                    }
                    // differences in the longer key
                    for p in 0..m {
                        for q in 0..m {
                            for (d, e) in [(1u8, 1u8), (0x80, 0x80), (0x10, 0x20), (0xff, 0)] {
                                let mut y = b.clone();
                                y[p] ^= d;
                                y[q] ^= e;
                                eq(c, &base, &y);
                            }
                        }
                    }
                    // a permutation of the bytes
                    let mut y = b.clone();
                    y.reverse();
                    eq(c, &base, &y);
                    let mut x = base.clone();
                    x.reverse();
                    eq(c, &x, &b);
                }
                if n == 1 && m <= 2 {
                    for x in 0..=255u8 {
                        for v in 0..=0xffffu32 {
                            if m == 1 {
                                if v < 256 {
                                    eq(c, &[x], &[v as u8]);
                                }
                            } else {
                                eq(c, &[x], &[v as u8, (v >> 8) as u8]);
                            }
                        }
                    }
                }
            });
        }
    }
    r.cases("sequence numbers", |c| {
        let mut vals: Vec<u32> = vec![];
        for b in strings(4, true) {
            vals.push(u32::from_le_bytes([b[0], b[1], b[2], b[3]]));
        }
        vals.extend(0..=0x1_0200u32);
        vals.extend((0..32).flat_map(|k| [1u32 << k, (1u32 << k).wrapping_sub(1), !(1u32 << k)]));
        vals.sort();
        vals.dedup();
        let trunc = |v: u32, n: usize| v & (u32::MAX >> (32 - 8 * n as u32));
        for v in &vals {
            c.at(|| format!("{v:#x}"));
            for n in [1usize, 2, 4] {
                let t = trunc(*v, n);
                let s = mks(&t.to_le_bytes()[..n]);
                let f: VarSeq = match n {
                    1 => VarSeq::from(*v as u8),
                    2 => VarSeq::from(*v as u16),
                    _ => VarSeq::from(*v),
                };
                assert_eq!(seq_bytes(&f), t.to_le_bytes()[..n].to_vec(), "From<u{}> of {v:#x}", n * 8);
                let (a, b, d): (u8, u16, u32) = (s.into(), s.into(), s.into());
                assert_eq!((a, b, d), (t as u8, t as u16, t), "Into of {s:?}");
                for m in [1usize, 2, 4] {
                    let mut x = s;
                    x.resize(sk(m));
                    let t2 = trunc(t, m);
                    assert_eq!(seq_bytes(&x), t2.to_le_bytes()[..m].to_vec(), "{s:?} resized to {m}");
                    for m2 in [1usize, 2, 4] {
                        let mut y = x;
                        y.resize(sk(m2));
                        assert_eq!(seq_bytes(&y), trunc(t2, m2).to_le_bytes()[..m2].to_vec(), "{s:?} resized to {m} then {m2}");
                    }
                    // comparison: by value, whatever the widths
                    for w in [*v, v ^ 1, v ^ 0x100, v ^ 0x1_0000, v ^ 0x8000_0000, v & 0xff, v & 0xffff, v << 8, v >> 8, v.swap_bytes()] {
                        let tw = trunc(w, m);
                        let o = mks(&tw.to_le_bytes()[..m]);
                        assert_eq!(s == o, t == tw, "{s:?} == {o:?}");
                        assert_eq!(o == s, t == tw, "{o:?} == {s:?}");
                        let k = mk(&[9]);
                        assert_eq!(VarHeader { key: k, seq_no: s } == VarHeader { key: k, seq_no: o }, t == tw, "headers with {s:?} and {o:?}");
                    }
                }
            }
            c.bulk(3 * (2 + 3 * 34));
        }
        c.sample(|| "resize paths, conversions and comparisons of sequence numbers".into());
    });
    r.assume("longer keys are covered position by position over backgrounds with folding-critical differences, not by all 2^64 values");
    r.finish()
}
