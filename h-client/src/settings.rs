//! A client set up with one sequence-number width and one error path: what it puts on the line,
//! and which frames it takes for errors.
use crate::common::*;
use crate::icd::*;
use postcard_rpc::host_client::HostErr;
use postcard_rpc::standard_icd::{FrameTooLong, WireError, ERROR_PATH};
use postcard_rpc::{Endpoint, Key};

#[derive(Clone, Copy)]
pub struct Setup {
    pub path: &'static str,
    other: &'static str,
    pub seq: usize,
    kn: usize,
}

pub fn choose() -> Setup {
    let paths = [(ERROR_PATH, "v/errors"), ("v/errors", ERROR_PATH), ("", ERROR_PATH)];
    let (path, other) = paths[vp_rt::choose(3, "error path")];
    let s = Setup { path, other, seq: [1, 2, 4][vp_rt::choose(3, "sequence width")], kn: [1, 2, 4, 8][vp_rt::choose(4, "key length")] };
    let ks = [Key::for_path::<WireError>(path), Key::for_path::<WireError>(other), Gamma::RESP_KEY].map(|k| key_n(k, s.kn));
    assert!(ks[0] != ks[1] && ks[0] != ks[2] && ks[1] != ks[2], "choose other paths");
    s
}

pub async fn caller(c: Client, ok: Flag) {
    let a = c.send_resp::<Gamma>(&1).await;
    assert_eq!(a, Ok(17), "a call answered after an error frame under another path");
    let a = c.send_resp::<Gamma>(&2).await;
    assert_eq!(a, Err(HostErr::Wire(WireError::FrameTooLong(FrameTooLong { len: 70_000, max: 2 }))), "a call refused by the server");
    let a = c.send_resp::<Gamma>(&3).await;
    assert_eq!(a, Ok(51), "a call after a refused one");
    ok.set();
}

/// The other end of the line.
pub async fn peer(s: Setup, mut next: impl AsyncFnMut() -> Vec<u8>, mut feed: impl AsyncFnMut(Vec<u8>)) {
    for n in 1..=3u8 {
        let f = next().await;
        let (h, b) = decode(&f).expect("a frame");
        assert_eq!(h.seq.len(), s.seq, "bytes of the sequence number in request {n} (left), configured (right)");
        assert_eq!(b, [n]);
        let err = |p: &str, e: WireError| encode(&Hdr { key: key_n(Key::for_path::<WireError>(p), s.kn), seq: h.seq.clone() }, &postcard::to_stdvec(&e).unwrap());
        let resp = encode(&Hdr { key: key_n(Gamma::RESP_KEY, s.kn), seq: h.seq.clone() }, &[n * 17]);
        feed(err(s.other, WireError::DeserFailed)).await;
        feed(if n == 2 { err(s.path, WireError::FrameTooLong(FrameTooLong { len: 70_000, max: 2 })) } else { resp }).await;
    }
}
